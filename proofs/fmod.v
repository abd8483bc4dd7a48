(* Lemmas used by the loop contracts of fmod (contracts/c12.cxx): the exact remainder, and powers of two times the divisor. *)
Require Import Reals Lra Lia ZArith.
From Flocq Require Import Core.
Open Scope R_scope.
Definition p2m (m d:R) := exists k:nat, m = pow 2 k * d.
Definition rem (a d:R) := a - d * IZR (Zfloor (a / d)).
Lemma p2m_refl d : p2m d d. Proof. exists 0%nat. simpl. lra. Qed.
Lemma p2m_double m d : p2m m d -> p2m (m + m) d. Proof. intros [k H]. exists (S k). rewrite H. simpl. lra. Qed.
Lemma pow2_ge1 k : 1 <= pow 2 k. Proof. apply pow_R1_Rle. lra. Qed.
Lemma p2m_ge m d : p2m m d -> 0 < d -> d <= m.
Proof. intros [k H] P. rewrite H. pose proof (pow2_ge1 k). nra. Qed.
Lemma p2m_half m d : p2m m d -> m <> d -> 0 < d -> p2m (m * / 2) d /\ d <= m * / 2.
Proof. intros [k H] N P. destruct k as [|k]. simpl in H. lra. assert (p2m (m * / 2) d). exists k. rewrite H. simpl. field. split; auto. apply p2m_ge; auto. Qed.
Lemma rem_sub r m d : p2m m d -> 0 < d -> rem (r - m) d = rem r d.
Proof. intros [k H] P. unfold rem. replace ((r - m) / d) with (r / d - pow 2 k) by (rewrite H; field; lra).
  replace (pow 2 k) with (IZR (2 ^ Z.of_nat k)) in * by (rewrite <- pow_IZR; reflexivity).
  assert (E: Zfloor (r / d - IZR (2 ^ Z.of_nat k)) = (Zfloor (r / d) - 2 ^ Z.of_nat k)%Z).
  { apply Zfloor_imp. rewrite plus_IZR, minus_IZR. pose proof (Zfloor_lb (r / d)). pose proof (Zfloor_ub (r / d)). lra. }
  rewrite E, minus_IZR, H. ring. Qed.
Lemma rem_small r d : 0 <= r < d -> rem r d = r.
Proof. intros [A B]. unfold rem. replace (Zfloor (r / d)) with 0%Z. simpl; lra. symmetry. apply Zfloor_imp. simpl. split. apply Rmult_le_pos. lra. left. apply Rinv_0_lt_compat. lra. apply Rmult_lt_reg_r with d. lra. unfold Rdiv. rewrite Rmult_assoc, Rinv_l. lra. lra. Qed.
(* |r| is the remainder: between 0 and d, a whole number of d away from a *)
Lemma rem_spec a d : 0 < d -> 0 <= rem a d < d /\ exists n:Z, a = IZR n * d + rem a d.
Proof. intros P. unfold rem. pose proof (Zfloor_lb (a / d)) as L. pose proof (Zfloor_ub (a / d)) as U. set (n := Zfloor (a / d)) in *.
  assert (E: a = a / d * d) by (field; lra). split. split; nra. exists n. ring. Qed.
(* representability: half of a multiple that is not the divisor itself is a floating-point number (FLT format, any precision and minimal exponent) *)
Section F. Variables emin prec : Z. Context (Hp: Prec_gt_0 prec).
Notation fmt := (generic_format radix2 (FLT_exp emin prec)).
Lemma pow2_fmt k d : fmt d -> fmt (pow 2 k * d).
Proof. intros H. rewrite Rmult_comm. replace (pow 2 k) with (bpow radix2 (Z.of_nat k)).
  destruct (Req_dec d 0) as [Z|N]. rewrite Z, Rmult_0_l. apply generic_format_0.
  apply generic_format_FLT. apply FLT_format_generic in H; auto. destruct H as [f H1 H2 H3]. exists (Float radix2 (Fnum f) (Fexp f + Z.of_nat k)). rewrite H1. unfold F2R; simpl. rewrite bpow_plus. ring. exact H2. simpl. lia.
  rewrite <- IZR_Zpower by lia. rewrite <- pow_IZR. reflexivity. Qed.
Lemma halfrep m d : fmt d -> p2m m d -> m <> d -> fmt (m * / 2).
Proof. intros H [k E] N. destruct k as [|k]. simpl in E. lra. replace (m * / 2) with (pow 2 k * d) by (rewrite E; simpl; field). apply pow2_fmt; auto. Qed.
End F.
