(* IEEE-754 lemmas instantiated by gv/terms.py, proved over Flocq's FLT formats
   (gradual underflow, radix 2, round to nearest, ties to even). *)
From Coq Require Import ZArith Reals Psatz Lia.
From Flocq Require Import Core Relative Sterbenz Plus_error.
Open Scope R_scope.

Section Fmt.
Variable emin prec : Z.
Context { prec_gt_0_ : Prec_gt_0 prec }.
Notation fexp := (FLT_exp emin prec).
Definition F x := generic_format radix2 fexp x.
Definition rnd x := round radix2 fexp ZnearestE x.

Global Instance vexp : Valid_exp fexp. Proof. apply FLT_exp_valid. exact prec_gt_0_. Qed.

Lemma rnd_F : forall x, F (rnd x).
Proof. intros. apply generic_format_round; auto with typeclass_instances. Qed.

(* add-mono-c, add-mono, add-mono-arg, mul/div against constants: rounding is monotone w.r.t. representable values *)
Lemma mono_ge : forall c s, F c -> c <= s -> c <= rnd s.
Proof. intros. apply round_ge_generic; auto with typeclass_instances. Qed.
Lemma mono_le : forall c s, F c -> s <= c -> rnd s <= c.
Proof. intros. apply round_le_generic; auto with typeclass_instances. Qed.
Lemma mono : forall s t, s <= t -> rnd s <= rnd t.
Proof. intros. apply round_le; auto with typeclass_instances. Qed.
Lemma rnd_id : forall s, F s -> rnd s = s.
Proof. intros. apply round_generic; auto with typeclass_instances. Qed.
Lemma rnd_opp : forall s, rnd (- s) = - rnd s.
Proof. intros. apply round_NE_opp. Qed.
Lemma F0 : F 0. Proof. apply generic_format_0. Qed.
Lemma F_opp : forall x, F x -> F (- x). Proof. intros. now apply generic_format_opp. Qed.

(* relative error of a sum: holds for every pair of operands, subnormal results included *)
Lemma rel_abs_normal : forall s, bpow radix2 (emin + prec - 1) <= Rabs s ->
  Rabs (rnd s - s) <= / 2 * bpow radix2 (- prec + 1) * Rabs s.
Proof. intros. apply relative_error_N_FLT; auto. Qed.

Lemma add_rel : forall a b, F a -> F b ->
  Rabs (rnd (a + b) - (a + b)) <= / 2 * bpow radix2 (- prec + 1) * Rabs (a + b).
Proof.
intros a b Ha Hb.
destruct (Rle_or_lt (bpow radix2 (emin + prec - 1)) (Rabs (a + b))) as [H|H].
- now apply rel_abs_normal.
- assert (G : F (a + b)).
  { apply FLT_format_plus_small; auto.
    apply Rlt_le. apply Rlt_le_trans with (1 := H). apply bpow_le. lia. }
  rewrite rnd_id by exact G.
  replace (a + b - (a + b)) with 0 by ring. rewrite Rabs_R0.
  apply Rmult_le_pos. 2: apply Rabs_pos.
  apply Rmult_le_pos. lra. apply bpow_ge_0.
Qed.

(* the two-sided form used by rel() in gv/terms.py *)
Lemma rel_two : forall u r s, 0 <= u -> Rabs (r - s) <= u * Rabs s ->
  (0 <= s -> (1 - u) * s <= r <= (1 + u) * s) /\ (s <= 0 -> (1 + u) * s <= r <= (1 - u) * s).
Proof.
intros u r s Hu H. apply Rabs_le_inv in H. split; intros.
- rewrite Rabs_pos_eq in H by lra. lra.
- rewrite Rabs_left1 in H by lra. lra.
Qed.

Lemma sub_sterbenz : forall x y, F x -> F y -> y / 2 <= x <= 2 * y -> rnd (x - y) = x - y.
Proof. intros. apply rnd_id. apply sterbenz; auto with typeclass_instances. Qed.

(* products *)
Lemma mul_le1 : forall x y, F y -> 0 <= x <= 1 -> 0 <= y -> 0 <= rnd (x * y) <= y.
Proof.
intros x y Hy [H0 H1] H. split.
- apply mono_ge. apply F0. nra.
- apply mono_le. exact Hy. nra.
Qed.
Lemma mul_ge1 : forall x y, F y -> 1 <= x -> 0 <= y -> y <= rnd (x * y).
Proof. intros. apply mono_ge; auto. nra. Qed.
Lemma mul_sign_neg : forall x y, 0 <= x -> y <= 0 -> rnd (x * y) <= 0.
Proof. intros. apply mono_le. apply F0. nra. Qed.
Lemma mul_sign_pos : forall x y, x <= 0 -> y <= 0 -> 0 <= rnd (x * y).
Proof. intros. apply mono_ge. apply F0. nra. Qed.

Lemma scale_up : forall y k, F y -> (0 <= k)%Z -> F (y * bpow radix2 k).
Proof.
intros y k Hy Hk.
apply FLT_format_generic in Hy; auto. destruct Hy as [f Hf Hm He].
apply generic_format_FLT. apply FLT_spec with (Float radix2 (Fnum f) (Fexp f + k)).
- rewrite Hf. unfold F2R; simpl. rewrite bpow_plus. ring.
- exact Hm.
- simpl. lia.
Qed.
Lemma mul_k : forall x y k, F y -> (0 <= k)%Z -> 0 <= y -> 0 <= x <= bpow radix2 k -> rnd (x * y) <= bpow radix2 k * y.
Proof.
intros x y k Hy Hk H [H0 H1]. apply mono_le.
- rewrite Rmult_comm. now apply scale_up.
- now apply Rmult_le_compat_r.
Qed.

(* scaling by a power of two is exact when the result is not subnormal *)
Lemma scale_F : forall y k, F y -> bpow radix2 (emin + prec - 1) <= Rabs y * bpow radix2 k -> F (y * bpow radix2 k).
Proof.
intros y k Hy Hb.
assert (Hx : FLX_format radix2 prec y) by (apply FLX_format_generic; auto; eapply generic_format_FLX_FLT; exact Hy).
destruct Hx as [f Hf Hm].
apply generic_format_FLT_FLX.
- rewrite Rabs_mult. rewrite (Rabs_pos_eq (bpow radix2 k)) by apply bpow_ge_0. exact Hb.
- apply generic_format_FLX. exists (Float radix2 (Fnum f) (Fexp f + k)).
  + rewrite Hf. unfold F2R; simpl. rewrite bpow_plus. ring.
  + exact Hm.
Qed.

(* integers up to 2^prec *)
Lemma F_int : forall n : Z, (emin <= 0)%Z -> (Z.abs n <= 2 ^ prec)%Z -> F (IZR n).
Proof.
intros n He Hn.
assert (Hp := prec_gt_0_); unfold Prec_gt_0 in Hp.
destruct (Z_le_lt_eq_dec _ _ Hn) as [Hl|Hq].
- apply generic_format_FLT. exists (Float radix2 n 0); simpl; auto.
  unfold F2R; simpl. ring.
- assert (G : F (bpow radix2 prec)).
  { apply generic_format_bpow. unfold FLT_exp. lia. }
  assert (B : bpow radix2 prec = IZR (2 ^ prec)).
  { rewrite <- IZR_Zpower by lia. reflexivity. }
  destruct (Z.abs_spec n) as [[_ E]|[_ E]]; rewrite E in Hq.
  + subst n. rewrite <- B. exact G.
  + replace n with (- 2 ^ prec)%Z by lia. rewrite opp_IZR, <- B. now apply F_opp.
Qed.

Lemma add_int : forall m n : Z, (emin <= 0)%Z -> (Z.abs (m + n) <= 2 ^ prec)%Z -> rnd (IZR m + IZR n) = IZR m + IZR n.
Proof. intros. rewrite <- plus_IZR. apply rnd_id. now apply F_int. Qed.

(* x < 1, y >= 1 : the rounded product stays below y *)
Lemma mul_lt : forall x y, (emin <= - prec)%Z -> (1 < prec)%Z -> F x -> F y -> 0 <= x < 1 -> 1 <= y -> rnd (x * y) < y.
Proof.
intros x y He Hpr Fx Fy [H0 H1] Hy.
assert (Fp : F (pred radix2 fexp y)) by (apply generic_format_pred; auto with typeclass_instances).
assert (Hlt : pred radix2 fexp y < y) by (apply pred_lt_id; lra).
apply Rle_lt_trans with (2 := Hlt).
apply round_N_le_midp; auto with typeclass_instances.
assert (Hs : succ radix2 fexp (pred radix2 fexp y) = y) by (apply succ_pred; auto with typeclass_instances).
rewrite Hs.
(* x <= 1 - 2^-prec *)
assert (F1 : F 1) by (apply (F_int 1); [lia | rewrite Z.abs_eq by lia; apply Z.le_trans with (2^1)%Z; [lia|apply Z.pow_le_mono_r; lia]]).
assert (Hx : x <= 1 - bpow radix2 (- prec)).
{ apply Rle_trans with (pred radix2 fexp 1).
  - apply pred_ge_gt; auto with typeclass_instances.
  - rewrite pred_eq_pos by lra. unfold pred_pos.
    rewrite mag_1. simpl (1 - 1)%Z. simpl (bpow radix2 0).
    rewrite Req_bool_true by reflexivity.
    unfold FLT_exp. rewrite Z.max_l by lia.
    apply Rplus_le_compat_l, Ropp_le_contravar, bpow_le. lia. }
assert (Hxy : x * y <= y - bpow radix2 (- prec) * y) by nra.
apply Rle_lt_trans with (1 := Hxy).
assert (y - pred radix2 fexp y < 2 * (bpow radix2 (- prec) * y)); [|lra].
rewrite pred_eq_pos by lra. unfold pred_pos.
assert (Hm : (1 <= mag radix2 y)%Z).
{ apply mag_ge_bpow. simpl. rewrite Rabs_pos_eq; lra. }
assert (Hb : bpow radix2 (mag radix2 y - 1) <= y).
{ assert (T := bpow_mag_le radix2 y). rewrite Rabs_pos_eq in T by lra. apply T. lra. }
case Req_bool_spec; intros E.
- (* power of two *)
  replace (y - (y - bpow radix2 (fexp (mag radix2 y - 1)))) with (bpow radix2 (fexp (mag radix2 y - 1))) by ring.
  unfold FLT_exp. rewrite Z.max_l by lia.
  apply Rlt_le_trans with (2 * (bpow radix2 (- prec) * bpow radix2 (mag radix2 y - 1))).
  + rewrite <- bpow_plus. change 2 with (bpow radix2 1). rewrite <- bpow_plus. apply bpow_lt. lia.
  + apply Rmult_le_compat_l. lra. apply Rmult_le_compat_l. apply bpow_ge_0. exact Hb.
- replace (y - (y - ulp radix2 fexp y)) with (ulp radix2 fexp y) by ring.
  rewrite ulp_neq_0 by lra. unfold cexp, FLT_exp. rewrite Z.max_l by lia.
  apply Rle_lt_trans with (2 * (bpow radix2 (- prec) * bpow radix2 (mag radix2 y - 1))).
  + rewrite <- bpow_plus. change 2 with (bpow radix2 1). rewrite <- bpow_plus. apply bpow_le. lia.
  + apply Rmult_lt_compat_l. lra. apply Rmult_lt_compat_l. apply bpow_gt_0. lra.
Qed.

(* quotients *)
Lemma div_pair : forall c1 c2 x y, 0 <= c1 <= c2 -> 0 < x <= y -> rnd (c1 / y) <= rnd (c2 / x).
Proof.
intros c1 c2 x y [H0 H1] [H2 H3]. apply mono. unfold Rdiv.
apply Rmult_le_compat; auto. apply Rlt_le, Rinv_0_lt_compat; lra. apply Rinv_le_contravar; lra.
Qed.
Lemma div_sign : forall a b, 0 <= a -> 0 < b -> 0 <= rnd (a / b).
Proof. intros. apply mono_ge. apply F0. apply Rmult_le_pos. lra. apply Rlt_le, Rinv_0_lt_compat; lra. Qed.
End Fmt.

(* ------------------------------------------------------------------ binary64 *)
Notation e64 := (-1074)%Z.
Notation F64 := (F e64 53).
Notation r64 := (rnd e64 53).
Notation e32 := (-149)%Z.
Notation F32 := (F e32 24).
Notation r32 := (rnd e32 24).
Global Instance p53 : Prec_gt_0 53. Proof. reflexivity. Qed.
Global Instance p24 : Prec_gt_0 24. Proof. reflexivity. Qed.
Definition U := bpow radix2 (-53).

Lemma half_ulp53 : / 2 * bpow radix2 (- (53) + 1) = U.
Proof. unfold U. change (/ 2) with (bpow radix2 (-1)). rewrite <- bpow_plus. reflexivity. Qed.

Lemma add_rel64 : forall a b, F64 a -> F64 b -> Rabs (r64 (a + b) - (a + b)) <= U * Rabs (a + b).
Proof. intros. rewrite <- half_ulp53. apply (add_rel e64 53); auto. Qed.
Lemma sub_rel64 : forall a b, F64 a -> F64 b -> Rabs (r64 (a - b) - (a - b)) <= U * Rabs (a - b).
Proof. intros. unfold Rminus at 2 4. apply add_rel64; auto. now apply F_opp. Qed.
Lemma rel64 : forall s, bpow radix2 (-1022) <= Rabs s -> Rabs (r64 s - s) <= U * Rabs s.
Proof. intros. rewrite <- half_ulp53. apply rel_abs_normal. typeclasses eauto. exact H. Qed.

(* finite results: a result of magnitude <= 2^1000 (2^127) cannot overflow *)
Lemma no_overflow64 : forall s, Rabs s <= bpow radix2 1000 -> Rabs (r64 s) < bpow radix2 1024.
Proof.
intros s H. apply Rle_lt_trans with (bpow radix2 1000). 2: apply bpow_lt; reflexivity.
apply abs_round_le_generic; auto with typeclass_instances.
apply generic_format_bpow. vm_compute. discriminate.
Qed.
Lemma no_overflow32 : forall s, Rabs s <= bpow radix2 127 -> Rabs (r32 s) < bpow radix2 128.
Proof.
intros s H. apply Rle_lt_trans with (bpow radix2 127). 2: apply bpow_lt; reflexivity.
apply abs_round_le_generic; auto with typeclass_instances.
apply generic_format_bpow. vm_compute. discriminate.
Qed.

(* multiplication by / division by a constant *)
Lemma const_prod_normal : forall c y, bpow radix2 (-60) <= Rabs c -> bpow radix2 (-900) <= Rabs y -> bpow radix2 (-1022) <= Rabs (c * y).
Proof.
intros. rewrite Rabs_mult. apply Rle_trans with (bpow radix2 (-60) * bpow radix2 (-900)).
- rewrite <- bpow_plus. apply bpow_le. lia.
- apply Rmult_le_compat; auto using bpow_ge_0.
Qed.
Lemma mul_const_rel : forall c y, bpow radix2 (-60) <= Rabs c -> y = 0 \/ bpow radix2 (-900) <= Rabs y ->
  Rabs (r64 (c * y) - c * y) <= U * Rabs (c * y).
Proof.
intros c y Hc [->|Hy].
- rewrite Rmult_0_r, rnd_id by (apply F0). rewrite Rminus_0_r, Rabs_R0, Rmult_0_r. lra.
- apply rel64. now apply const_prod_normal.
Qed.
Lemma mul_pow2 : forall k y, (-60 <= k)%Z -> F64 y -> y = 0 \/ bpow radix2 (-900) <= Rabs y -> r64 (bpow radix2 k * y) = bpow radix2 k * y.
Proof.
intros k y Hk Fy [->|Hy].
- rewrite Rmult_0_r. apply rnd_id. apply F0.
- apply rnd_id. rewrite Rmult_comm. apply scale_F. typeclasses eauto. exact Fy.
  apply Rle_trans with (bpow radix2 (-900) * bpow radix2 (-60)).
  + rewrite <- bpow_plus. apply bpow_le. lia.
  + apply Rmult_le_compat; auto using bpow_ge_0, bpow_le.
Qed.

(* conversions of integers *)
Lemma i2d_exact : forall n : Z, (Z.abs n <= 2 ^ 53)%Z -> r64 (IZR n) = IZR n.
Proof. intros. apply rnd_id. apply F_int; auto. typeclasses eauto. lia. Qed.
Lemma IZR_abs_ge1 : forall n : Z, n <> 0%Z -> 1 <= Rabs (IZR n).
Proof. intros. rewrite <- abs_IZR. apply IZR_le. lia. Qed.
Lemma i2d_rel : forall n : Z, Rabs (r64 (IZR n) - IZR n) <= U * Rabs (IZR n).
Proof.
intros n. destruct (Z.eq_dec n 0) as [->|Hn].
- rewrite rnd_id by apply F0. rewrite Rminus_0_r, Rabs_R0. lra.
- apply rel64. apply Rle_trans with 1. 2: now apply IZR_abs_ge1.
  change 1 with (bpow radix2 0). apply bpow_le. lia.
Qed.
Lemma i2f_exact : forall n : Z, (Z.abs n <= 2 ^ 24)%Z -> r32 (IZR n) = IZR n.
Proof. intros. apply rnd_id. apply F_int; auto. typeclasses eauto. lia. Qed.
(* scaling by 2^k commutes with the rounding of an integer to binary32 *)
Lemma i2f_scale : forall n k : Z, (-60 <= k)%Z -> r32 (IZR n * bpow radix2 k) = r32 (IZR n) * bpow radix2 k.
Proof.
intros n k Hk. destruct (Z.eq_dec n 0) as [->|Hn].
- rewrite Rmult_0_l, rnd_id by apply F0. ring.
- assert (H1 := IZR_abs_ge1 n Hn).
  assert (Hm : (1 <= mag radix2 (IZR n))%Z) by (apply mag_ge_bpow; exact H1).
  assert (Hz : IZR n <> 0) by (apply IZR_neq; exact Hn).
  unfold rnd, round, F2R, scaled_mantissa, cexp; simpl.
  rewrite mag_mult_bpow by exact Hz.
  unfold FLT_exp. rewrite !Z.max_l by lia.
  replace (IZR n * bpow radix2 k * bpow radix2 (- (mag radix2 (IZR n) + k - 24)))
    with (IZR n * bpow radix2 (- (mag radix2 (IZR n) - 24))).
  2: { rewrite Rmult_assoc, <- bpow_plus. f_equal. f_equal. lia. }
  rewrite Rmult_assoc, <- bpow_plus. f_equal. f_equal. lia.
Qed.
Lemma mul32_pow2 : forall y k, F32 y -> (0 <= k)%Z -> r32 (y * bpow radix2 k) = y * bpow radix2 k.
Proof. intros. apply rnd_id. apply scale_up; auto. typeclasses eauto. Qed.
Lemma div32_pow2 : forall n k : Z, (0 <= k <= 60)%Z -> r32 (r32 (IZR n) / bpow radix2 k) = r32 (IZR n) / bpow radix2 k.
Proof.
intros n k Hk. unfold Rdiv. rewrite <- bpow_opp. rewrite <- i2f_scale by lia.
apply rnd_id. apply rnd_F. typeclasses eauto.
Qed.

(* nonzero binary32 values are at least 2^-149 in magnitude *)
Lemma f32_tiny : forall x, F32 x -> x <> 0 -> bpow radix2 (-149) <= Rabs x.
Proof.
intros x Fx Hx. apply FLT_format_generic in Fx. 2: reflexivity. destruct Fx as [f Hf Hm He].
assert (Fnum f <> 0%Z). { intros E. apply Hx. rewrite Hf. unfold F2R. rewrite E. simpl. ring. }
rewrite Hf. unfold F2R. rewrite Rabs_mult, (Rabs_pos_eq (bpow _ _)) by apply bpow_ge_0.
apply Rle_trans with (1 * bpow radix2 (Fexp f)).
- rewrite Rmult_1_l. apply bpow_le. exact He.
- apply Rmult_le_compat_r. apply bpow_ge_0. rewrite <- abs_IZR. apply IZR_le. lia.
Qed.

(* lrint: round half to even *)
Definition lr (x : R) : Z := ZnearestE x.
Lemma lrint_half : forall x, Rabs (IZR (lr x) - x) <= / 2.
Proof. intros. rewrite Rabs_minus_sym. apply Znearest_half. Qed.
Lemma lrint_mono : forall x y, x <= y -> (lr x <= lr y)%Z.
Proof. intros. apply (@Zrnd_le ZnearestE (valid_rnd_N _)); auto. Qed.
Lemma lrint_tie : forall x, Rabs (IZR (lr x) - x) = / 2 -> Z.even (lr x) = true.
Proof.
intros x H. unfold lr in *.
assert (E : x - IZR (Zfloor x) = / 2).
{ destruct (Req_dec (x - IZR (Zfloor x)) (/ 2)) as [E|E]; auto.
  assert (T := Znearest_N_strict (fun x => negb (Z.even x)) x E). rewrite Rabs_minus_sym in T. lra. }
assert (C : Zceil x = (Zfloor x + 1)%Z) by (apply Zceil_floor_neq; intros C; rewrite C in E; lra).
unfold Znearest. rewrite Rcompare_Eq by exact E.
case_eq (Z.even (Zfloor x)); intros Ev; simpl; auto.
rewrite C, Z.even_add, Ev. reflexivity.
Qed.

Lemma lrint_int32 : forall x, 0 <= x < IZR (2 ^ 31 - 2) -> (0 <= lr x <= 2 ^ 31)%Z.
Proof.
intros x [H0 H1]. split.
- replace 0%Z with (lr (IZR 0)). now apply lrint_mono. unfold lr. now apply (@Zrnd_IZR ZnearestE (valid_rnd_N _)).
- apply Z.le_trans with (lr (IZR (2 ^ 31 - 2))). apply lrint_mono. lra.
  unfold lr. rewrite (@Zrnd_IZR ZnearestE (valid_rnd_N _)). lia.
Qed.

(* x - lrint x is exact *)
Lemma lrint_F : forall x, 0 <= x < IZR (2 ^ 31 - 2) -> F64 (IZR (lr x)).
Proof.
intros x H. apply F_int. typeclasses eauto. lia. assert (T := lrint_int32 x H).
assert (2 ^ 31 <= 2 ^ 53)%Z by (apply Z.pow_le_mono_r; lia). lia.
Qed.
Lemma sub_near : forall x, F64 x -> 0 <= x < IZR (2 ^ 31 - 2) -> F64 (x - IZR (lr x)).
Proof.
intros x Fx Hx. assert (Hh := lrint_half x). apply Rabs_le_inv in Hh.
destruct (lrint_int32 x Hx) as [Hn _].
destruct (Z_le_lt_eq_dec _ _ Hn) as [Hp|He].
- assert (1 <= IZR (lr x)) by (apply IZR_le; lia).
  apply sterbenz. apply vexp; typeclasses eauto. apply FLT_exp_monotone. exact Fx. now apply lrint_F. lra.
- rewrite <- He. rewrite Rminus_0_r. exact Fx.
Qed.
Lemma sub_near_r : forall x, F64 x -> 0 <= x < IZR (2 ^ 31 - 2) -> r64 (x - IZR (lr x)) = x - IZR (lr x).
Proof. intros. apply rnd_id. now apply sub_near. Qed.

(* every double >= 1/2 is a multiple of 2^-53 *)
Lemma mult53 : forall x, F64 x -> / 2 <= x -> exists m : Z, x = IZR m * U.
Proof.
intros x Fx Hx. unfold F, generic_format in Fx.
set (c := cexp radix2 (FLT_exp e64 53) x) in *.
assert (Hm : (0 <= mag radix2 x)%Z).
{ apply mag_ge_bpow. rewrite Rabs_pos_eq by lra. simpl. lra. }
assert (Hc : (-53 <= c)%Z) by (unfold c, cexp, FLT_exp; lia).
exists (Ztrunc (scaled_mantissa radix2 (FLT_exp e64 53) x) * 2 ^ (c + 53))%Z.
rewrite Fx at 1. unfold F2R; simpl. fold c. rewrite mult_IZR, Rmult_assoc. f_equal.
unfold U. change (IZR (2 ^ (c + 53))) with (IZR (radix2 ^ (c + 53))). rewrite IZR_Zpower by lia.
rewrite <- bpow_plus. f_equal. lia.
Qed.
Lemma U_F : forall m : Z, (0 <= m <= 2 ^ 53)%Z -> F64 (IZR m * U).
Proof.
intros m Hm. destruct (Z.eq_dec m 0) as [->|H0]. rewrite Rmult_0_l; apply F0.
apply scale_F. typeclasses eauto.
- apply F_int. typeclasses eauto. lia. lia.
- apply Rle_trans with (1 * bpow radix2 (-53)).
  + rewrite Rmult_1_l. apply bpow_le. lia.
  + apply Rmult_le_compat_r. apply bpow_ge_0. now apply IZR_abs_ge1.
Qed.
Lemma wrap_near : forall x, F64 x -> 0 <= x < IZR (2 ^ 31 - 2) -> x - IZR (lr x) < 0 ->
  r64 (x - IZR (lr x) + 1) = x - IZR (lr x) + 1 /\ x - IZR (lr x) + 1 <= 1 - U.
Proof.
intros x Fx Hx Hd. assert (Hh := lrint_half x). apply Rabs_le_inv in Hh.
destruct (lrint_int32 x Hx) as [Hn _].
assert (Hp : (1 <= lr x)%Z).
{ destruct (Z_le_lt_eq_dec _ _ Hn) as [Hp|He]. lia. rewrite <- He in Hd. lra. }
assert (1 <= IZR (lr x)) by (apply IZR_le; lia).
destruct (mult53 x Fx) as [m Em]. lra.
assert (E : x - IZR (lr x) + 1 = IZR (m - lr x * 2 ^ 53 + 2 ^ 53) * U).
{ rewrite Em at 1. rewrite plus_IZR, minus_IZR, mult_IZR.
  assert (B : IZR (2 ^ 53) * U = 1).
  { unfold U. change (IZR (2 ^ 53)) with (IZR (radix2 ^ 53)). rewrite IZR_Zpower by lia. rewrite <- bpow_plus. reflexivity. }
  nra. }
assert (Upos : 0 < U) by apply bpow_gt_0.
assert (B : IZR (2 ^ 53) * U = 1).
{ unfold U. change (IZR (2 ^ 53)) with (IZR (radix2 ^ 53)). rewrite IZR_Zpower by lia. rewrite <- bpow_plus. reflexivity. }
set (q := (m - lr x * 2 ^ 53 + 2 ^ 53)%Z) in *.
assert (Q0 : (0 <= q)%Z). { apply le_IZR. apply Rmult_le_reg_r with U; auto. rewrite Rmult_0_l, <- E. lra. }
assert (Q1 : (q < 2 ^ 53)%Z). { apply lt_IZR. apply Rmult_lt_reg_r with U; auto. rewrite B, <- E. lra. }
split.
- apply rnd_id. rewrite E. apply U_F. lia.
- rewrite E. assert (IZR q <= IZR (2 ^ 53 - 1)) by (apply IZR_le; lia).
  rewrite minus_IZR in H0. nra.
Qed.

(* ramp: fl(fl(g*d)/n) lies between 0 and d(1-2^-51) *)
Lemma ramp_pos : forall g d n, 0 <= g <= n - 1 -> 1 <= g \/ g = 0 -> 1 <= n <= bpow radix2 50 -> d = 0 \/ bpow radix2 (-200) <= d ->
  0 <= r64 (r64 (g * d) / n) <= (1 - bpow radix2 (-51)) * d.
Proof.
intros g d n Hg Hg1 Hn Hd.
assert (Z1 : 0 < 1 - bpow radix2 (-51)) by (simpl; lra).
assert (Dp : 0 <= d) by (destruct Hd as [->|H]; [lra | generalize (bpow_ge_0 radix2 (-200)); lra]).
assert (C0 : g = 0 \/ d = 0 \/ (1 <= g /\ bpow radix2 (-200) <= d)) by tauto.
assert (Z0 : r64 0 = 0) by (apply rnd_id; apply F0).
assert (Triv : g * d = 0 -> 0 <= r64 (r64 (g * d) / n) <= (1 - bpow radix2 (-51)) * d).
{ intros ->. rewrite Z0. unfold Rdiv. rewrite Rmult_0_l, Z0. split. lra. apply Rmult_le_pos; lra. }
destruct C0 as [->|[->|[G1 D1]]]; try (apply Triv; ring).
clear Triv.
assert (N2 : 2 <= n) by lra.
assert (P : bpow radix2 (-200) <= g * d) by nra.
assert (Pp := bpow_gt_0 radix2 (-200)).
assert (A : r64 (g * d) <= (1 + U) * (g * d)).
{ assert (T : Rabs (r64 (g * d) - g * d) <= U * Rabs (g * d)).
  apply rel64. rewrite Rabs_pos_eq by lra. apply Rle_trans with (2 := P). apply bpow_le. lia.
  rewrite (Rabs_pos_eq (g * d)) in T by lra. apply Rabs_le_inv in T. lra. }
assert (A0 : bpow radix2 (-200) <= r64 (g * d)).
{ apply mono_ge. typeclasses eauto. apply generic_format_bpow. vm_compute. discriminate. exact P. }
assert (Ni : bpow radix2 (-50) <= / n <= 1).
{ split.
  - change (-50)%Z with (- (50))%Z. rewrite bpow_opp. apply Rinv_le_contravar; lra.
  - rewrite <- Rinv_1. apply Rinv_le_contravar; lra. }
assert (Q : bpow radix2 (-250) <= r64 (g * d) / n).
{ unfold Rdiv. change (-250)%Z with (-200 + -50)%Z. rewrite bpow_plus.
  apply Rmult_le_compat; auto using bpow_ge_0. apply Ni. }
assert (Qp := bpow_gt_0 radix2 (-250)).
split. { apply mono_ge. typeclasses eauto. apply F0. lra. }
assert (T : Rabs (r64 (r64 (g * d) / n) - r64 (g * d) / n) <= U * Rabs (r64 (g * d) / n)).
{ apply rel64. rewrite Rabs_pos_eq by lra. apply Rle_trans with (2 := Q). apply bpow_le. lia. }
rewrite (Rabs_pos_eq (r64 (g * d) / n)) in T by lra. apply Rabs_le_inv in T.
assert (Up : 0 < U) by apply bpow_gt_0.
assert (S1 : r64 (r64 (g * d) / n) <= (1 + U) * (((1 + U) * (g * d)) / n)).
{ apply Rle_trans with ((1 + U) * (r64 (g * d) / n)). lra.
  apply Rmult_le_compat_l. lra. unfold Rdiv. apply Rmult_le_compat_r. apply Rlt_le, Rinv_0_lt_compat; lra. exact A. }
apply Rle_trans with (1 := S1).
assert (Gn : g / n <= 1 - bpow radix2 (-50)).
{ apply Rle_trans with ((n - 1) / n).
  - unfold Rdiv. apply Rmult_le_compat_r. apply Rlt_le, Rinv_0_lt_compat; lra. lra.
  - unfold Rdiv. rewrite Rmult_minus_distr_r, Rinv_r by lra. lra. }
replace ((1 + U) * ((1 + U) * (g * d) / n)) with ((1 + U) * (1 + U) * (g / n) * d) by (field; lra).
apply Rmult_le_compat_r. exact Dp.
apply Rle_trans with ((1 + U) * (1 + U) * (1 - bpow radix2 (-50))).
- apply Rmult_le_compat_l. nra. exact Gn.
- unfold U. simpl. lra.
Qed.
Lemma ramp_neg : forall g d n, 0 <= g <= n - 1 -> 1 <= g \/ g = 0 -> 1 <= n <= bpow radix2 50 -> d = 0 \/ d <= - bpow radix2 (-200) ->
  (1 - bpow radix2 (-51)) * d <= r64 (r64 (g * d) / n) <= 0.
Proof.
intros g d n Hg Hg1 Hn Hd.
assert (H : 0 <= r64 (r64 (g * - d) / n) <= (1 - bpow radix2 (-51)) * - d).
{ apply ramp_pos; auto. destruct Hd; [left|right]; lra. }
replace (g * - d) with (- (g * d)) in H by ring.
rewrite rnd_opp in H. replace (- r64 (g * d) / n) with (- (r64 (g * d) / n)) in H by (unfold Rdiv; ring).
rewrite rnd_opp in H. lra.
Qed.

(* division by a power of two, division of a constant *)
Lemma div_const_rel : forall c y, c <> 0 -> Rabs c <= bpow radix2 60 -> y = 0 \/ bpow radix2 (-900) <= Rabs y ->
  Rabs (r64 (y / c) - y / c) <= U * Rabs (y / c).
Proof.
intros c y Hc Hb Hy. unfold Rdiv. rewrite (Rmult_comm y). apply mul_const_rel; auto.
change (-60)%Z with (- (60))%Z. rewrite bpow_opp, Rabs_inv. apply Rinv_le; auto. now apply Rabs_pos_lt.
Qed.
Lemma div_pow2 : forall k y, (k <= 60)%Z -> F64 y -> y = 0 \/ bpow radix2 (-900) <= Rabs y -> r64 (y / bpow radix2 k) = y / bpow radix2 k.
Proof. intros. unfold Rdiv. rewrite <- bpow_opp, Rmult_comm. apply mul_pow2; auto. lia. Qed.
Lemma mag_mul : forall a b, Rabs a <= bpow radix2 500 -> Rabs b <= bpow radix2 500 -> Rabs (a * b) <= bpow radix2 1000.
Proof. intros. rewrite Rabs_mult. change 1000%Z with (500 + 500)%Z. rewrite bpow_plus. apply Rmult_le_compat; auto using Rabs_pos. Qed.
Lemma mag_div : forall a b, Rabs a <= bpow radix2 500 -> bpow radix2 (-100) <= Rabs b -> Rabs (a / b) <= bpow radix2 1000.
Proof.
intros. unfold Rdiv. rewrite Rabs_mult. apply Rle_trans with (bpow radix2 500 * bpow radix2 100).
- apply Rmult_le_compat; auto using Rabs_pos. rewrite Rabs_inv. change 100%Z with (- -100)%Z. rewrite bpow_opp.
  apply Rinv_le; auto. apply bpow_gt_0.
- rewrite <- bpow_plus. apply bpow_le. lia.
Qed.

(* ------------------------------------------------------------------ the C operators are these roundings *)
From Flocq Require Import BinarySingleNaN.
Definition b64 := binary_float 53 1024.
Lemma Hp53 : Prec_lt_emax 53 1024. Proof. reflexivity. Qed.
Global Existing Instance Hp53.
Lemma plus_is_rnd : forall x y : b64, is_finite x = true -> is_finite y = true -> is_finite (Bplus mode_NE x y) = true ->
  B2R (Bplus mode_NE x y) = r64 (B2R x + B2R y).
Proof.
intros x y Fx Fy Fz. assert (T := Bplus_correct 53 1024 _ _ mode_NE x y Fx Fy).
destruct (Rlt_bool _ _) in T. exact (proj1 T).
destruct T as [T _]. rewrite <- is_finite_SF_B2SF in Fz. rewrite T in Fz. discriminate.
Qed.
Lemma minus_is_rnd : forall x y : b64, is_finite x = true -> is_finite y = true -> is_finite (Bminus mode_NE x y) = true ->
  B2R (Bminus mode_NE x y) = r64 (B2R x - B2R y).
Proof.
intros x y Fx Fy Fz. assert (T := Bminus_correct 53 1024 _ _ mode_NE x y Fx Fy).
destruct (Rlt_bool _ _) in T. exact (proj1 T).
destruct T as [T _]. rewrite <- is_finite_SF_B2SF in Fz. rewrite T in Fz. discriminate.
Qed.
Lemma mult_is_rnd : forall x y : b64, is_finite x = true -> is_finite y = true -> is_finite (Bmult mode_NE x y) = true ->
  B2R (Bmult mode_NE x y) = r64 (B2R x * B2R y).
Proof.
intros x y Fx Fy Fz. assert (T := Bmult_correct 53 1024 _ _ mode_NE x y).
destruct (Rlt_bool _ _) in T. exact (proj1 T).
rewrite <- is_finite_SF_B2SF in Fz. rewrite T in Fz. discriminate.
Qed.
Lemma div_is_rnd : forall x y : b64, B2R y <> 0 -> is_finite x = true -> is_finite (Bdiv mode_NE x y) = true ->
  B2R (Bdiv mode_NE x y) = r64 (B2R x / B2R y).
Proof.
intros x y Hy Fx Fz. assert (T := Bdiv_correct 53 1024 _ _ mode_NE x y Hy).
destruct (Rlt_bool _ _) in T. exact (proj1 T).
rewrite <- is_finite_SF_B2SF in Fz. rewrite T in Fz. discriminate.
Qed.
