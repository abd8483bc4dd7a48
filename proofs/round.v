(* The rounding theorems used by round mode (vcgen/main.cpp, Z::rounded and Z::trRound), for any binary FLT format and round to nearest, ties to even;
   the exponent range is unbounded above (that nothing overflows is a separate obligation). *)
Require Import Reals Lra Lia ZArith.
From Flocq Require Import Core Plus_error Relative Sterbenz.
Open Scope R_scope.
Section F. Variables emin prec : Z. Context (Hp: Prec_gt_0 prec).
Notation fexp := (FLT_exp emin prec). Notation fmt := (generic_format radix2 fexp). Notation rnd := (round radix2 fexp ZnearestE).
Definition u := / 2 * bpow radix2 (- prec + 1). Definition eta := / 2 * bpow radix2 emin.
Lemma mono_l x e : fmt x -> x <= e -> x <= rnd e. Proof. intros. apply round_ge_generic; auto with typeclass_instances. Qed.
Lemma mono_u x e : fmt x -> e <= x -> rnd e <= x. Proof. intros. apply round_le_generic; auto with typeclass_instances. Qed.
Lemma exact x : fmt x -> rnd x = x. Proof. intros. apply round_generic; auto with typeclass_instances. Qed.
Lemma opp_fmt x : fmt x -> fmt (- x). Proof. apply generic_format_opp. Qed.
Lemma err x : Rabs (rnd x - x) <= u * Rabs x + eta.
Proof. unfold u, eta. destruct (error_N_FLT radix2 emin prec Hp (fun x => negb (Z.even x)) x) as (ep & et & A & B & _ & E). 
  change (Znearest (fun x => negb (Z.even x))) with ZnearestE in E. rewrite E. replace (x * (1 + ep) + et - x) with (x * ep + et) by ring.
  eapply Rle_trans. apply Rabs_triang. apply Rplus_le_compat. rewrite Rabs_mult, Rmult_comm. apply Rmult_le_compat_r. apply Rabs_pos. exact A. exact B. Qed.
Lemma err_plus x y : fmt x -> fmt y -> Rabs (rnd (x + y) - (x + y)) <= u * Rabs (x + y).
Proof. intros X Y. unfold u. destruct (Rle_or_lt (bpow radix2 (emin + prec - 1)) (Rabs (x + y))) as [L|L].
  apply relative_error_N_FLT; auto.
  rewrite exact. rewrite Rminus_diag_eq by reflexivity. rewrite Rabs_R0. apply Rmult_le_pos. apply Rmult_le_pos. lra. apply bpow_ge_0. apply Rabs_pos.
  apply FLT_format_plus_small; auto. left. apply Rlt_le_trans with (1:=L). apply bpow_le. lia. Qed.
Lemma err_minus x y : fmt x -> fmt y -> Rabs (rnd (x - y) - (x - y)) <= u * Rabs (x - y).
Proof. intros. apply err_plus; auto. apply generic_format_opp; auto. Qed.
Lemma sterbenz_minus x y : fmt x -> fmt y -> y <= 2 * x -> x <= 2 * y -> rnd (x - y) = x - y.
Proof. intros. apply exact. apply sterbenz; auto with typeclass_instances. lra. Qed.
Lemma sterbenz_minus_neg x y : fmt x -> fmt y -> - y <= - (2 * x) -> - x <= - (2 * y) -> rnd (x - y) = x - y.
Proof. intros X Y A B. replace (x - y) with (- y - - x) by ring. apply sterbenz_minus; try apply generic_format_opp; auto; lra. Qed.
Lemma scale_fmt x k : (0 <= k)%Z -> fmt x -> fmt (x * bpow radix2 k).
Proof. intros K H. apply generic_format_FLT. apply FLT_format_generic in H; auto. destruct H as [f H1 H2 H3]. exists (Float radix2 (Fnum f) (Fexp f + k)). rewrite H1. unfold F2R; simpl. rewrite bpow_plus. ring. exact H2. simpl. lia. Qed.
Lemma double_fmt x : fmt x -> fmt (x + x).
Proof. intros H. replace (x + x) with (x * bpow radix2 1) by (change (bpow radix2 1) with 2; ring). apply scale_fmt; auto. lia. Qed.
End F.
