(* The iteration of the fast reciprocal square root (contracts/c26.cxx, part 2: the contracts "formula ..." pin the code to it, "estimate" bounds its start), binary64 round to nearest even. *)
Require Import Reals Lra Lia ZArith Psatz.
From Flocq Require Import Core Relative.
Open Scope R_scope.
Notation fexp := (FLT_exp (-1074) 53). Notation rnd := (round radix2 fexp ZnearestE).
Local Instance p53 : Prec_gt_0 53. Proof. unfold Prec_gt_0. lia. Qed.
Definition u := bpow radix2 (-53).
Lemma rel x : bpow radix2 (-1022) <= x -> exists d, -u <= d <= u /\ rnd x = x * (1 + d).
Proof. intros H. destruct (relative_error_N_FLT_ex radix2 (-1074) 53 p53 (fun x => negb (Z.even x)) x) as (d & A & B).
  - rewrite Rabs_pos_eq; auto. apply Rle_trans with (2:=H). apply bpow_ge_0.
  - exists d. split; auto. apply Rabs_le_inv. eapply Rle_trans. exact A. apply Req_le. unfold u. change (bpow radix2 (-53)) with (bpow radix2 (-1 + (-53 + 1))). rewrite (bpow_plus radix2 (-1) (-53 + 1)). reflexivity. Qed.
Lemma u_val : u = / 9007199254740992. Proof. reflexivity. Qed.
Lemma two w a b : 0 < w <= / 1000000 -> -w <= a <= w -> -w <= b <= w -> 1 - (2001/1000) * w <= (1 + a) * (1 + b) <= 1 + (2001/1000) * w.
Proof. intros W A B. assert (-(w * w) <= a * b <= w * w) by (split; nra). assert (w * w <= w * / 1000000) by (apply Rmult_le_compat_l; lra). lra. Qed.
Lemma prods s z S Z : 0 <= s <= S -> -Z <= z <= Z -> -(S * Z) <= s * z <= S * Z.
Proof. intros A B. assert (0 <= Z) by lra. assert (s * Z <= S * Z) by (apply Rmult_le_compat_r; lra). assert (s * z <= s * Z) by (apply Rmult_le_compat_l; lra). assert (s * (-Z) <= s * z) by (apply Rmult_le_compat_l; lra). lra. Qed.
Lemma near1 w a b p q : 0 < w <= / 1000000 -> 0 <= p <= 10 -> 0 <= q <= 10 -> 1 - p * w <= a <= 1 + p * w -> 1 - q * w <= b <= 1 + q * w -> 1 - (p + q) * w - w / 1000 <= a * b <= 1 + (p + q) * w + w / 1000.
Proof. intros W P Q A B. assert (PW: 0 <= p * w <= 10 * w) by (split; [apply Rmult_le_pos; lra|apply Rmult_le_compat_r; lra]). assert (QW: 0 <= q * w <= 10 * w) by (split; [apply Rmult_le_pos; lra|apply Rmult_le_compat_r; lra]).
  assert (X: -(10 * w * (10 * w)) <= (a - 1) * (b - 1) <= 10 * w * (10 * w)). { assert (Rabs ((a - 1) * (b - 1)) <= 10 * w * (10 * w)). rewrite Rabs_mult. apply Rmult_le_compat; try apply Rabs_pos; apply Rabs_le; lra. apply Rabs_le_inv; auto. }
  assert (w * w <= w * / 1000000) by (apply Rmult_le_compat_l; lra). lra. Qed.
(* one step: y * (k - h * y * y) *)
Definition step k h y := rnd (y * rnd (k - rnd (rnd (h * y) * y))).
(* in exact arithmetic t = b y^2 becomes t (k - t/2)^2; the roundings multiply it by at most 1 +- 8 u or so *)
Lemma step_rel k b y : bpow radix2 (-1020) <= b <= bpow radix2 1024 -> 0 < y -> 1/2 <= b * (y * y) <= 3/2 -> 7/5 <= k <= 8/5 ->
  exists e, -(11 * u) <= e <= 11 * u /\ 0 < step k (/2 * b) y /\ b * (step k (/2 * b) y * step k (/2 * b) y) = (b * (y * y)) * ((k - b * (y * y) / 2) * (k - b * (y * y) / 2)) * (1 + e).
Proof. intros [B1 B2] Y [T1 T2] [K1 K2]. assert (P: 0 < bpow radix2 (-1020)) by apply bpow_gt_0. set (t := b * (y * y)) in *.
  assert (E1: bpow radix2 (-513) * bpow radix2 (-513) = / 4 * bpow radix2 (-1024)) by (rewrite <- bpow_plus; change (/4) with (bpow radix2 (-2)); rewrite <- bpow_plus; reflexivity).
  assert (E2: bpow radix2 1024 * bpow radix2 (-1024) = 1) by (rewrite <- bpow_plus; reflexivity).
  assert (E3: bpow radix2 (-1020) * bpow radix2 1020 = 1) by (rewrite <- bpow_plus; reflexivity).
  assert (E4: bpow radix2 511 * bpow radix2 511 = 4 * bpow radix2 1020) by (rewrite <- bpow_plus; change 4 with (bpow radix2 2); rewrite <- bpow_plus; reflexivity).
  assert (E5: bpow radix2 511 * bpow radix2 (-513) = / 4) by (rewrite <- bpow_plus; reflexivity).
  assert (P1: 0 < bpow radix2 (-1024)) by apply bpow_gt_0. assert (P2: 0 < bpow radix2 1020) by apply bpow_gt_0. assert (P3: 0 < bpow radix2 511) by apply bpow_gt_0. assert (P4: 0 < bpow radix2 (-513)) by apply bpow_gt_0. assert (P5: 0 < bpow radix2 1024) by apply bpow_gt_0.
  assert (SQ: forall a c, 0 <= a -> c * c <= a * a -> c <= a). { intros a c A H. destruct (Rle_or_lt c a); auto. nra. }
  assert (YL: bpow radix2 (-513) <= y). { apply SQ; [lra|]. rewrite E1. assert (H: / 2 * bpow radix2 (-1024) <= t * bpow radix2 (-1024)) by (apply Rmult_le_compat_r; lra). assert (H2: b * (y * y) <= bpow radix2 1024 * (y * y)) by (apply Rmult_le_compat_r; nra).
    assert (H3: t * bpow radix2 (-1024) <= y * y). replace (y * y) with (bpow radix2 1024 * (y * y) * bpow radix2 (-1024)). apply Rmult_le_compat_r; [lra|exact H2]. replace (bpow radix2 1024 * (y * y) * bpow radix2 (-1024)) with ((bpow radix2 1024 * bpow radix2 (-1024)) * (y * y)) by ring. rewrite E2. ring. lra. }
  assert (YU: y <= bpow radix2 511). { apply SQ; [lra|]. rewrite E4. assert (H2: bpow radix2 (-1020) * (y * y) <= b * (y * y)) by (apply Rmult_le_compat_r; nra).
    assert (H3: y * y <= t * bpow radix2 1020). replace (y * y) with (bpow radix2 (-1020) * (y * y) * bpow radix2 1020). apply Rmult_le_compat_r; [lra|exact H2]. replace (bpow radix2 (-1020) * (y * y) * bpow radix2 1020) with ((bpow radix2 (-1020) * bpow radix2 1020) * (y * y)) by ring. rewrite E3. ring. nra. }
  assert (BY: bpow radix2 (-513) <= / 2 * b * y). { apply Rmult_le_reg_r with y; auto. replace (/ 2 * b * y * y) with (/ 2 * t) by (unfold t; ring). assert (bpow radix2 (-513) * y <= bpow radix2 (-513) * bpow radix2 511) by (apply Rmult_le_compat_l; lra). lra. }
  assert (S: bpow radix2 (-1022) <= / 8 * bpow radix2 (-513)). change (/8) with (bpow radix2 (-3)). rewrite <- bpow_plus. apply bpow_le. lia.
  assert (S1: bpow radix2 (-1022) <= / 8). change (/8) with (bpow radix2 (-3)). apply bpow_le. lia.
  unfold step. pose proof rel as REL. destruct (REL (/ 2 * b * y)) as (d1 & D1 & ->). lra. pose proof u_val as UV. assert (U0: 0 < u) by (rewrite UV; lra). assert (U1: u <= / 1000000) by (rewrite UV; lra). clear UV. set (uu := u) in *. clearbody uu.
  destruct (REL (/ 2 * b * y * (1 + d1) * y)) as (d2 & D2 & ->). { replace (/ 2 * b * y * (1 + d1) * y) with (/ 2 * t * (1 + d1)) by (unfold t; ring). nra. }
  replace (/ 2 * b * y * (1 + d1) * y * (1 + d2)) with (/ 2 * t * ((1 + d1) * (1 + d2))) by (unfold t; ring).
  assert (A: 1 - (2001/1000) * uu <= (1 + d1) * (1 + d2) <= 1 + (2001/1000) * uu) by (apply two; try split; lra). set (a := (1 + d1) * (1 + d2)) in *. clearbody a. clear D1 D2 d1 d2.
  assert (W: 1/5 <= / 2 * t * a <= 4/5). { pose proof (prods (/ 2 * t) (a - 1) (3/4) (/ 1000)) as X. lra. }
  destruct (REL (k - / 2 * t * a)) as (d3 & D3 & ->). lra.
  assert (G: 3/5 <= k - / 2 * t * a) by lra.
  destruct (REL (y * ((k - / 2 * t * a) * (1 + d3)))) as (d4 & D4 & ->). { assert (/2 <= (k - / 2 * t * a) * (1 + d3)) by nra. assert (y * /2 <= y * ((k - / 2 * t * a) * (1 + d3))) by (apply Rmult_le_compat_l; lra). lra. }
  assert (M: 1 - (2001/1000) * uu <= (1 + d3) * (1 + d4) <= 1 + (2001/1000) * uu) by (apply two; try split; lra).
  set (g := k - t / 2). assert (GB: 13/20 <= g <= 27/20) by (unfold g; lra).
  set (v := (k - / 2 * t * a) / g). assert (V: k - / 2 * t * a = g * v) by (unfold v; field; lra).
  assert (VB: 1 - (24/10) * uu <= v <= 1 + (24/10) * uu). { assert (VE: g * (v - 1) = / 2 * t * (1 - a)) by (rewrite Rmult_minus_distr_l, <- V; unfold g; lra). assert (VP: -(3/4 * ((2001/1000) * uu)) <= / 2 * t * (1 - a) <= 3/4 * ((2001/1000) * uu)) by (apply prods; split; lra). clearbody v. split.
    - apply Rnot_lt_le. intro N. assert (g * (v - 1) < g * (- (24/10) * uu)) by (apply Rmult_lt_compat_l; lra). assert (13/20 * ((24/10) * uu) <= g * ((24/10) * uu)) by (apply Rmult_le_compat_r; lra). lra.
    - apply Rnot_lt_le. intro N. assert (g * ((24/10) * uu) < g * (v - 1)) by (apply Rmult_lt_compat_l; lra). assert (13/20 * ((24/10) * uu) <= g * ((24/10) * uu)) by (apply Rmult_le_compat_r; lra). lra. }
  set (m := (1 + d3) * (1 + d4)) in *. replace (y * ((k - / 2 * t * a) * (1 + d3)) * (1 + d4)) with (y * (g * v) * m) by (rewrite <- V; unfold m; ring).
  clearbody v m. assert (Q: 1 - 5 * uu <= v * m <= 1 + 5 * uu). { pose proof (near1 uu v m (24/10) (2001/1000)) as X. lra. }
  assert (Q2: 1 - 11 * uu <= (v * m) * (v * m) <= 1 + 11 * uu). { pose proof (near1 uu (v * m) (v * m) 5 5) as X. lra. }
  exists ((v * m) * (v * m) - 1). split; [|split].
  - lra. - apply Rmult_lt_0_compat. apply Rmult_lt_0_compat; auto. apply Rmult_lt_0_compat; lra. lra.
  - unfold t. ring. Qed.
(* the map in exact arithmetic *)
Lemma cubic t k : t * ((k - t / 2) * (k - t / 2)) = (2 * k / 3) * (2 * k / 3) * (2 * k / 3) - (t - 2 * k / 3) * (t - 2 * k / 3) * (2 * k / 3 - t / 4).
Proof. field. Qed.
Lemma iter t k D lo hi : -D <= t - 2 * k / 3 <= D -> 1/2 <= t <= 3/2 -> 7/5 <= k <= 8/5 -> lo + D * D * (19/20) <= (2 * k / 3) * (2 * k / 3) * (2 * k / 3) <= hi -> lo <= t * ((k - t / 2) * (k - t / 2)) <= hi.
Proof. intros A T K H. rewrite cubic. set (d := t - 2 * k / 3) in *. assert (0 <= d * d) by nra. assert (d * d <= D * D) by nra. assert (Q: 0 <= 2 * k / 3 - t / 4 <= 19/20) by lra. set (q := 2 * k / 3 - t / 4) in *. clearbody d q. 
  assert (0 <= d * d * q) by (apply Rmult_le_pos; lra). assert (d * d * q <= D * D * (19/20)) by (apply Rmult_le_compat; lra). lra. Qed.
Lemma one_step k b y D lo hi : bpow radix2 (-1020) <= b <= bpow radix2 1024 -> 0 < y -> -D <= b * (y * y) - 2 * k / 3 <= D -> 1/2 <= b * (y * y) <= 3/2 -> 7/5 <= k <= 8/5 -> 0 < lo -> hi <= 2 -> lo + D * D * (19/20) <= (2 * k / 3) * (2 * k / 3) * (2 * k / 3) <= hi ->
  0 < step k (/2 * b) y /\ lo - 22 * u <= b * (step k (/2 * b) y * step k (/2 * b) y) <= hi + 22 * u.
Proof. intros B Y A T K L Hh H. destruct (step_rel k b y B Y T K) as (e & E1 & E2 & E3). split; auto. rewrite E3. pose proof (iter _ _ _ _ _ A T K H) as I. set (f := b * (y * y) * ((k - b * (y * y) / 2) * (k - b * (y * y) / 2))) in *. clearbody f.
  pose proof (prods f e 2 (11 * u)) as X. lra. Qed.
Definition newton4 k1 k2 k3 b y := step (3/2) (/2 * b) (step k3 (/2 * b) (step k2 (/2 * b) (step k1 (/2 * b) y))).
(* the constants are those of the code up to their conversion to double *)
Theorem fast_rsqrt_precision k1 k2 k3 b y : bpow radix2 (-1020) <= b <= bpow radix2 1024 -> 0 < y -> 93/100 <= b * (y * y) <= 107/100 ->
  150087895511633/100000000000000 <= k1 <= 150087895511634/100000000000000 -> 150000057967625/100000000000000 <= k2 <= 150000057967626/100000000000000 -> 15000000000002518/10000000000000000 <= k3 <= 15000000000002522/10000000000000000 ->
  0 < newton4 k1 k2 k3 b y /\ 1 - 23 * u <= b * (newton4 k1 k2 k3 b y * newton4 k1 k2 k3 b y) <= 1 + 23 * u.
Proof. intros B Y T K1 K2 K3. unfold newton4. pose proof u_val as UV.
  destruct (one_step k1 b y (71/1000) (9969/10000) (10018/10000) B Y) as (P1 & T1); try lra. split; nra.
  set (y1 := step k1 (/ 2 * b) y) in *. clearbody y1.
  destruct (one_step k2 b y1 (32/10000) (1 - 9/1000000) (1 + 12/10000000) B P1) as (P2 & T2); try lra. split; nra.
  set (y2 := step k2 (/ 2 * b) y1) in *. clearbody y2.
  destruct (one_step k3 b y2 (10/1000000) (1 - 100/1000000000000) (1 + 51/100000000000000) B P2) as (P3 & T3); try lra. split; nra.
  set (y3 := step k3 (/ 2 * b) y2) in *. clearbody y3.
  destruct (one_step (3/2) b y3 (11/100000000000) (1 - u / 1000) 1 B P3) as (P4 & T4); try lra. Qed.
(* the reciprocal root of a float: three more corrections, then a rounding to float *)
Lemma last_step b y : bpow radix2 (-1020) <= b <= bpow radix2 1024 -> 0 < y -> 1 - 23 * u <= b * (y * y) <= 1 + 23 * u -> 0 < step (3/2) (/2 * b) y /\ 1 - 23 * u <= b * (step (3/2) (/2 * b) y * step (3/2) (/2 * b) y) <= 1 + 23 * u.
Proof. intros B Y T. pose proof u_val as UV. destruct (one_step (3/2) b y (11/100000000000) (1 - u / 1000) 1 B Y) as (P4 & T4); try lra. Qed.
Theorem rsqrt_float_precision b y r : bpow radix2 (-1020) <= b <= bpow radix2 1024 -> 0 < y -> 1 - 23 * u <= b * (y * y) <= 1 + 23 * u ->
  let z := step (3/2) (/2 * b) (step (3/2) (/2 * b) (step (3/2) (/2 * b) y)) in z * (1 - / 16777216) <= r <= z * (1 + / 16777216) -> 1 - / 4194304 <= b * (r * r) <= 1 + / 4194304.
Proof. intros B Y T z R. destruct (last_step b y B Y T) as (Y1 & T1). destruct (last_step b _ B Y1 T1) as (Y2 & T2). destruct (last_step b _ B Y2 T2) as (Y3 & T3). fold z in Y3, T3. clearbody z. pose proof u_val as UV. assert (BP: 0 < b). { apply Rlt_le_trans with (2 := proj1 B). apply bpow_gt_0. }
  assert (L: z * (1 - / 16777216) * (z * (1 - / 16777216)) <= r * r) by (apply Rmult_le_compat; nra). assert (H: r * r <= z * (1 + / 16777216) * (z * (1 + / 16777216))) by (apply Rmult_le_compat; nra).
  assert (L2: b * (z * (1 - / 16777216) * (z * (1 - / 16777216))) <= b * (r * r)) by (apply Rmult_le_compat_l; lra). assert (H2: b * (r * r) <= b * (z * (1 + / 16777216) * (z * (1 + / 16777216)))) by (apply Rmult_le_compat_l; lra).
  replace (b * (z * (1 - / 16777216) * (z * (1 - / 16777216)))) with (b * (z * z) * ((1 - / 16777216) * (1 - / 16777216))) in L2 by ring. replace (b * (z * (1 + / 16777216) * (z * (1 + / 16777216)))) with (b * (z * z) * ((1 + / 16777216) * (1 + / 16777216))) in H2 by ring. lra. Qed.
