(* The error-free transformations of the double-double layer (contracts/c29.cxx pins the formulas of the code to these), for the binary64 format
   with an exponent range unbounded above, round to nearest even. From Flocq's TwoSum, Fast2Sum and Dekker theorems. *)
Require Import Reals Lra Lia ZArith.
From Flocq Require Import Core Pff2Flocq.
Open Scope R_scope.
Notation fexp := (FLT_exp (-1074) 53). Notation fmt := (generic_format radix2 fexp). Notation rnd := (round radix2 fexp ZnearestE).
Local Instance p53 : Prec_gt_0 53. Proof. unfold Prec_gt_0. lia. Qed.
Lemma rnd_opp x : rnd (- x) = - rnd x. Proof. apply round_NE_opp. Qed.
Lemma even_sym : forall x, negb (Z.even x) = negb (negb (Z.even (- (x + 1)))).
Proof. intros x. rewrite Z.even_opp, Z.even_add. simpl. destruct (Z.even x); reflexivity. Qed.
Definition two_sum_s a b := rnd (a + b).
Definition two_sum_e a b := let s := rnd (a + b) in let v := rnd (s - a) in rnd (rnd (a - rnd (s - v)) + rnd (b - v)).
Definition quick_e a b := let s := rnd (a + b) in rnd (b - rnd (s - a)).
Theorem two_sum_exact a b : fmt a -> fmt b -> two_sum_s a b + two_sum_e a b = a + b.
Proof. intros A B. unfold two_sum_s, two_sum_e. apply (TwoSum_correct (-1074) 53 (fun x => negb (Z.even x))); auto; try lia. apply even_sym. Qed.
Theorem quick_two_sum_exact a b : fmt a -> fmt b -> Rabs b <= Rabs a -> two_sum_s a b + quick_e a b = a + b.
Proof. intros A B H. unfold two_sum_s, quick_e. cbv zeta. pose proof (Fast2Sum_correct (-1074) 53 (fun x => negb (Z.even x)) ltac:(lia) ltac:(lia) even_sym a b A B H) as E. set (s := rnd (a + b)) in *. replace (b - rnd (s - a)) with (b + rnd (a - s)). exact E. replace (a - s) with (- (s - a)) by ring. rewrite rnd_opp. ring. Qed.
Definition hi a := let t := rnd (134217729 * a) in rnd (t - rnd (t - a)).
Definition lo a := rnd (a - hi a).
Definition two_prod_s a b := rnd (a * b).
Definition two_prod_e a b := rnd (rnd (rnd (rnd (rnd (hi a * hi b) - rnd (a * b)) + rnd (hi a * lo b)) + rnd (lo a * hi b)) + rnd (lo a * lo b)).
Lemma hi_eq a : hi a = rnd (rnd (a - rnd (a * (bpow radix2 27 + 1))) + rnd (a * (bpow radix2 27 + 1))).
Proof. unfold hi. cbv zeta. replace (134217729 * a) with (a * (bpow radix2 27 + 1)) by (change (bpow radix2 27) with 134217728; ring). set (p := rnd (a * (bpow radix2 27 + 1))). f_equal. replace (a - p) with (- (p - a)) by ring. rewrite rnd_opp. ring. Qed.
Lemma hi_eq' a : rnd (rnd (a - rnd (a * (bpow radix2 (53 - Z.div2 53) + 1))) + rnd (a * (bpow radix2 (53 - Z.div2 53) + 1))) = hi a.
Proof. symmetry. exact (hi_eq a). Qed.
Theorem two_prod_error_full a b : fmt a -> fmt b -> ((a * b = 0 \/ bpow radix2 (-969) <= Rabs (a * b)) -> a * b = two_prod_s a b + two_prod_e a b) /\ Rabs (a * b - (two_prod_s a b + two_prod_e a b)) <= 7 / 2 * bpow radix2 (-1074).
Proof. intros A B. unfold two_prod_s, two_prod_e. replace (rnd (hi a * hi b) - rnd (a * b)) with (- rnd (a * b) + rnd (hi a * hi b)) by ring. unfold lo.
  pose proof (Dekker radix2 (-1074) 53 (fun x => negb (Z.even x)) ltac:(lia) ltac:(lia) a b A B (or_introl (eq_refl _))) as D.
  rewrite !hi_eq' in D. exact D. Qed.
Theorem two_prod_exact a b : fmt a -> fmt b -> (a * b = 0 \/ bpow radix2 (-969) <= Rabs (a * b)) -> two_prod_s a b + two_prod_e a b = a * b.
Proof. intros A B H. symmetry. apply two_prod_error_full; auto. Qed.
