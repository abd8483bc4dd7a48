(* The Newton step of the constant-evaluated square root (contracts/c26.cxx, part 3), binary64 round to nearest even. *)
Require Import Reals Lra Lia ZArith Psatz.
From Flocq Require Import Core Relative.
Open Scope R_scope.
Notation fexp := (FLT_exp (-1074) 53). Notation rnd := (round radix2 fexp ZnearestE).
Local Instance p53 : Prec_gt_0 53. Proof. unfold Prec_gt_0. lia. Qed.
(* relative error of one rounding, far from the bottom of the exponent range *)
Lemma rel x : bpow radix2 (-1022) <= Rabs x -> exists d, Rabs d <= bpow radix2 (-53) /\ rnd x = x * (1 + d).
Proof. intros H. destruct (relative_error_N_FLT_ex radix2 (-1074) 53 p53 (fun x => negb (Z.even x)) x H) as (d & A & B). exists d. split; auto.
  eapply Rle_trans. exact A. apply Req_le. change (bpow radix2 (-53)) with (bpow radix2 (-1 + (-53 + 1))). rewrite (bpow_plus radix2 (-1) (-53 + 1)). reflexivity. Qed.
Lemma relp x : bpow radix2 (-1022) <= x -> exists d, -/1000000 <= d <= /1000000 /\ rnd x = x * (1 + d).
Proof. intros H. destruct (rel x) as (d & A & B). rewrite Rabs_pos_eq; auto. apply Rle_trans with (2:=H). apply bpow_ge_0. exists d. split; auto.
  assert (bpow radix2 (-53) <= /1000000). apply Rle_trans with (bpow radix2 (-20)). apply bpow_le; lia. change (bpow radix2 (-20)) with (/ 1048576). lra.
  apply Rabs_le_inv in A. lra. Qed.
Lemma sq_ge x y : 0 <= x -> y * y <= x * x -> y <= x. Proof. intros. destruct (Rle_or_lt y x); auto. nra. Qed.
Definition step b c := rnd (/2 * rnd (c + rnd (b / c))).
Theorem newton_near b c : bpow radix2 (-900) <= b <= bpow radix2 900 -> 0 < c -> (63/64) * b <= c * c <= (65/64) * b ->
  (127/128) * b <= step b c * step b c <= (129/128) * b /\ bpow radix2 (-451) <= step b c <= bpow radix2 451.
Proof. intros [B1 B2] C [N1 N2]. assert (P: 0 < bpow radix2 (-900)) by apply bpow_gt_0.
  assert (E: bpow radix2 (-450) * bpow radix2 (-450) = bpow radix2 (-900)) by (rewrite <- bpow_plus; reflexivity).
  assert (E2: bpow radix2 450 * bpow radix2 450 = bpow radix2 900) by (rewrite <- bpow_plus; reflexivity).
  assert (P1: 0 < bpow radix2 (-450)) by apply bpow_gt_0. assert (P2: 0 < bpow radix2 450) by apply bpow_gt_0.
  assert (H1: bpow radix2 (-451) = / 2 * bpow radix2 (-450)) by (change (-451)%Z with (-1 + -450)%Z; rewrite bpow_plus; reflexivity).
  assert (H2: bpow radix2 451 = 2 * bpow radix2 450) by (change 451%Z with (1 + 450)%Z; rewrite bpow_plus; reflexivity).
  assert (P3: 0 < bpow radix2 (-451)) by apply bpow_gt_0.
  assert (L: bpow radix2 (-451) <= c). apply sq_ge; [lra|]. rewrite H1. nra.
  assert (U: c <= bpow radix2 451). apply sq_ge; [apply bpow_ge_0|]. rewrite H2. nra.
  assert (S: bpow radix2 (-1022) <= / 8 * bpow radix2 (-451)). change (/8) with (bpow radix2 (-3)). rewrite <- bpow_plus. apply bpow_le. lia.
  assert (QC: b / c * c = b) by (field; lra).
  assert (Q: c * (63/65) <= b / c <= c * (65/63)). split; (apply Rmult_le_reg_r with c; [auto|]); rewrite QC; nra.
  unfold step. destruct (relp (b / c)) as (k & K & ->). lra.
  assert (T1: 0 <= b / c * (1 + k)) by (apply Rmult_le_pos; lra).
  destruct (relp (c + b / c * (1 + k))) as (d & D & ->). lra.
  assert (T2: / 2 * c <= (c + b / c * (1 + k)) * (1 + d)). replace (/2 * c) with (c * /2) by ring. apply Rmult_le_compat; lra.
  destruct (relp (/2 * ((c + b / c * (1 + k)) * (1 + d)))) as (e & F & ->). lra.
  set (q := b / c) in *. set (s := / 2 * ((c + q * (1 + k)) * (1 + d)) * (1 + e)).
  assert (M: (1 - /200000) <= (1 + d) * (1 + e) <= 1 + /200000) by nra. set (m := (1 + d) * (1 + e)) in *.
  assert (SE: s = / 2 * (c + q * (1 + k)) * m) by (unfold s, m; ring).
  assert (G1: / 2 * (c + q) * (1 - /100000) <= s). rewrite SE. assert ((c + q) * (1 - /1000000) <= c + q * (1 + k)) by nra. nra.
  assert (G2: s <= / 2 * (c + q) * (1 + /100000)). rewrite SE. assert (c + q * (1 + k) <= (c + q) * (1 + /1000000)) by nra. nra.
  assert (A1: b <= (/2 * (c + q)) * (/2 * (c + q))). rewrite <- QC. pose proof (Rle_0_sqr (c - q)) as Z. unfold Rsqr in Z. lra.
  assert (A2: (/2 * (c + q)) * (/2 * (c + q)) <= (1 + /1000) * b). rewrite <- QC. assert (0 <= (c * (2/63) - (c - q)) * (c * (2/63) + (c - q))) by (apply Rmult_le_pos; lra). assert (c * (63/65) * c <= q * c) by (apply Rmult_le_compat_r; lra). assert (0 < c * c) by (apply Rmult_lt_0_compat; auto). lra.
  set (h := / 2 * (c + q)) in *. assert (HP: 0 < h) by (unfold h; lra). clearbody m h. clear SE K D F M Q QC. 
  assert (SP: 0 <= s) by lra.
  assert (W1: (127/128) * b <= s * s). assert (h * (1 - /100000) * (h * (1 - /100000)) <= s * s) by (apply Rmult_le_compat; lra). lra.
  assert (W2: s * s <= (129/128) * b). assert (s * s <= h * (1 + /100000) * (h * (1 + /100000))) by (apply Rmult_le_compat; lra). lra.
  clear - B1 B2 W1 W2 SP P P1 P2 E E2 H1 H2 P3. repeat split; auto. apply sq_ge; [lra|]. rewrite H1. replace (/ 2 * bpow radix2 (-450) * (/ 2 * bpow radix2 (-450))) with (/4 * bpow radix2 (-900)) by (rewrite <- E; field). lra.
  apply sq_ge; [apply bpow_ge_0|]. rewrite H2. replace (2 * bpow radix2 450 * (2 * bpow radix2 450)) with (4 * bpow radix2 900) by (rewrite <- E2; ring). assert (0 < bpow radix2 900) by apply bpow_gt_0. lra. Qed.
(* the same with a computed mean that is only close to the step, as in the double-double iteration *)
Theorem newton_near_dd b c n : bpow radix2 (-900) <= b <= bpow radix2 900 -> 0 < c -> (63/64) * b <= c * c <= (65/64) * b ->
  n - step b c <= /1000000 * step b c -> step b c - n <= /1000000 * step b c ->
  (63/64) * b <= n * n <= (65/64) * b /\ bpow radix2 (-452) <= n <= bpow radix2 452.
Proof. intros B C N D1 D2. destruct (newton_near b c B C N) as ((W1 & W2) & (R1 & R2)). assert (0 < bpow radix2 (-451)) by apply bpow_gt_0. assert (0 < bpow radix2 (-900)) by apply bpow_gt_0.
  assert (H1: bpow radix2 (-452) = / 2 * bpow radix2 (-451)) by (change (-452)%Z with (-1 + -451)%Z; rewrite bpow_plus; reflexivity).
  assert (H2: bpow radix2 452 = 2 * bpow radix2 451) by (change 452%Z with (1 + 451)%Z; rewrite bpow_plus; reflexivity).
  set (s := step b c) in *. assert (0 < s) by lra. clearbody s. assert (0 < s * s) by (apply Rmult_lt_0_compat; auto). split. split.
  apply Rle_trans with (s * (1 - /1000000) * (s * (1 - /1000000))). nra. apply Rmult_le_compat; lra.
  apply Rle_trans with (s * (1 + /1000000) * (s * (1 + /1000000))). apply Rmult_le_compat; lra. nra. lra. Qed.
(* the quotient by a value near the root is near that value *)
Theorem quotient_near b c : bpow radix2 (-900) <= b <= bpow radix2 900 -> 0 < c -> (63/64) * b <= c * c <= (65/64) * b -> (31/32) * c <= rnd (b / c) <= (33/32) * c.
Proof. intros [B1 B2] C [N1 N2]. assert (P: 0 < bpow radix2 (-900)) by apply bpow_gt_0.
  assert (E: bpow radix2 (-450) * bpow radix2 (-450) = bpow radix2 (-900)) by (rewrite <- bpow_plus; reflexivity).
  assert (P1: 0 < bpow radix2 (-450)) by apply bpow_gt_0.
  assert (H1: bpow radix2 (-451) = / 2 * bpow radix2 (-450)) by (change (-451)%Z with (-1 + -450)%Z; rewrite bpow_plus; reflexivity).
  assert (L: bpow radix2 (-451) <= c). apply sq_ge; [lra|]. rewrite H1. nra.
  assert (S: bpow radix2 (-1022) <= / 8 * bpow radix2 (-451)). change (/8) with (bpow radix2 (-3)). rewrite <- bpow_plus. apply bpow_le. lia.
  assert (QC: b / c * c = b) by (field; lra).
  assert (Q: c * (63/65) <= b / c <= c * (65/63)). split; (apply Rmult_le_reg_r with c; [auto|]); rewrite QC; nra.
  destruct (relp (b / c)) as (k & K & ->). lra. nra. Qed.
(* a value near the root of b lies in the range given by b *)
Theorem near_range b c e f : 0 < c -> (63/64) * b <= c * c <= (65/64) * b -> bpow radix2 (2 * e) <= b <= bpow radix2 (2 * f) -> bpow radix2 (e - 1) <= c <= bpow radix2 (f + 1).
Proof. intros C N B. replace (2 * e)%Z with (e + e)%Z in B by lia. replace (2 * f)%Z with (f + f)%Z in B by lia. rewrite !bpow_plus in *. assert (0 < bpow radix2 e) by apply bpow_gt_0. assert (0 < bpow radix2 f) by apply bpow_gt_0.
  change (bpow radix2 (-1)) with (/2). change (bpow radix2 1) with 2. assert (bpow radix2 (e - 1) = bpow radix2 e * / 2). unfold Z.sub. rewrite bpow_plus. reflexivity.
  try rewrite H1. split; apply sq_ge; nra. Qed.
(* a value that is (almost) its own Newton step is the root *)
Lemma relq x : bpow radix2 (-1022) <= x -> exists d, -bpow radix2 (-53) <= d <= bpow radix2 (-53) /\ rnd x = x * (1 + d).
Proof. intros H. destruct (rel x) as (d & A & B). rewrite Rabs_pos_eq; auto. apply Rle_trans with (2:=H). apply bpow_ge_0. exists d. split; auto. apply Rabs_le_inv in A. lra. Qed.
Theorem fixed_point b c : bpow radix2 (-900) <= b <= bpow radix2 900 -> 0 < c -> (63/64) * b <= c * c <= (65/64) * b ->
  c - step b c <= bpow radix2 (-35) * step b c -> step b c - c <= bpow radix2 (-35) * step b c -> (1 - bpow radix2 (-33)) * b <= c * c <= (1 + bpow radix2 (-33)) * b.
Proof. intros [B1 B2] C [N1 N2] D1 D2. assert (P: 0 < bpow radix2 (-900)) by apply bpow_gt_0.
  assert (E: bpow radix2 (-450) * bpow radix2 (-450) = bpow radix2 (-900)) by (rewrite <- bpow_plus; reflexivity).
  assert (P1: 0 < bpow radix2 (-450)) by apply bpow_gt_0.
  assert (H1: bpow radix2 (-451) = / 2 * bpow radix2 (-450)) by (change (-451)%Z with (-1 + -450)%Z; rewrite bpow_plus; reflexivity).
  assert (L: bpow radix2 (-451) <= c). apply sq_ge; [lra|]. rewrite H1. nra.
  assert (S: bpow radix2 (-1022) <= / 8 * bpow radix2 (-451)). change (/8) with (bpow radix2 (-3)). rewrite <- bpow_plus. apply bpow_le. lia.
  assert (QC: b / c * c = b) by (field; lra).
  assert (Q: c * (63/65) <= b / c <= c * (65/63)). split; (apply Rmult_le_reg_r with c; [auto|]); rewrite QC; nra.
  revert D1 D2. unfold step. assert (V: bpow radix2 (-53) = bpow radix2 (-18) * bpow radix2 (-35)) by (rewrite <- bpow_plus; reflexivity).
  assert (V2: bpow radix2 (-18) = / 262144) by reflexivity. assert (V3: bpow radix2 (-35) <= / 1048576). change (/1048576) with (bpow radix2 (-20)). apply bpow_le; lia.
  assert (V4: bpow radix2 (-33) = 4 * bpow radix2 (-35)). change 4 with (bpow radix2 2). rewrite <- bpow_plus. reflexivity. assert (V5: 0 < bpow radix2 (-35)) by apply bpow_gt_0.
  destruct (relq (b / c)) as (k & K & ->). lra. set (w := bpow radix2 (-35)) in *. rewrite V2 in V. rewrite V in K.
  assert (T1: 0 <= b / c * (1 + k)) by (apply Rmult_le_pos; lra).
  destruct (relq (c + b / c * (1 + k))) as (d & D & ->). lra. rewrite V in D.
  assert (T2: / 2 * c <= (c + b / c * (1 + k)) * (1 + d)). replace (/2 * c) with (c * /2) by ring. apply Rmult_le_compat; lra.
  destruct (relq (/2 * ((c + b / c * (1 + k)) * (1 + d)))) as (e & F & ->). lra. rewrite V in F. intros D1 D2.
  set (q := b / c) in *. rewrite V4. clearbody w. clear V V2 V4 P1 E L S H1 B1 B2 P T2.
  assert (M: 1 - w/100000 <= (1 + d) * (1 + e) <= 1 + w/100000) by nra. 
  set (m := (1 + d) * (1 + e)) in *. 
  replace (/ 2 * ((c + q * (1 + k)) * (1 + d)) * (1 + e)) with (/ 2 * (c + q * (1 + k)) * m) in D1, D2 by (unfold m; ring). clearbody m.
  assert (QP: 0 < q). assert (0 < c * (63/65)) by lra. lra.
  assert (A1: c <= /2 * (c + q) * (1 + w * (102/100))). { assert (c + q * (1 + k) <= (c + q) * (1 + w/100000)) by nra. assert (c <= /2 * (c + q * (1 + k)) * m * (1 + w)) by lra.
    assert (m * (1 + w) <= 1 + w * (101/100)) by nra. assert (0 <= c + q * (1+k)) by lra. nra. }
  assert (A2: /2 * (c + q) * (1 - w * (102/100)) <= c). { assert ((c + q) * (1 - w/100000) <= c + q * (1 + k)) by nra. assert (/2 * (c + q * (1 + k)) * m * (1 - w) <= c) by lra.
    assert (1 - w * (101/100) <= m * (1 - w)) by nra. assert (0 <= c + q * (1+k)) by lra. assert (0 <= 1 - w/100000) by lra. assert ((c + q) * (1 - w/100000) * (1 - w * (101/100)) <= (c + q * (1 + k)) * (m * (1 - w))) by (apply Rmult_le_compat; try lra; apply Rmult_le_pos; lra). nra. }
  clear D1 D2 M K D F T1. rewrite <- QC. assert (q * (1 - w * 3) <= c) by nra. assert (c <= q * (1 + 3 * w)) by nra. split; nra. Qed.
