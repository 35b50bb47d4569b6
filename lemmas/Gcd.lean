/- Mathematical lemmas instantiated by mirvc (C03): facts about the greatest common divisor
   G x y := (Int.gcd x y : Int), truncated remainder (Int.tmod) and exact division. -/
import Mathlib.Data.Int.GCD
import Mathlib.Tactic

theorem G_zero (x : Int) : ((Int.gcd x 0 : Nat) : Int) = |x| := by
  rw [Int.gcd_zero_right]; exact Int.natCast_natAbs x

theorem G_step (x y : Int) : ((Int.gcd x y : Nat) : Int) = ((Int.gcd y (x.tmod y) : Nat) : Int) := by
  have h : x.tmod y = x - y * x.tdiv y := Int.tmod_def x y
  rw [h]
  congr 1
  rw [Int.gcd_comm x y, sub_eq_add_neg, ← mul_neg]
  exact (Int.gcd_add_mul_left_right _ _ _).symm

theorem G_comm (x y : Int) : Int.gcd x y = Int.gcd y x := Int.gcd_comm x y
theorem G_neg_left (x y : Int) : Int.gcd (-x) y = Int.gcd x y := Int.neg_gcd
theorem G_neg_right (x y : Int) : Int.gcd x (-y) = Int.gcd x y := Int.gcd_neg
theorem G_pos (x y : Int) (h : y ≠ 0) : 0 < ((Int.gcd x y : Nat) : Int) := by
  have := Int.gcd_pos_of_ne_zero_right x h
  exact_mod_cast this
theorem G_nonneg (x y : Int) : 0 ≤ ((Int.gcd x y : Nat) : Int) := by positivity

/-- existence of the reduced pair -/
theorem G_reduce (x y : Int) (h : y ≠ 0) :
    ∃ a b : Int, x = Int.gcd x y * a ∧ y = Int.gcd x y * b ∧ Int.gcd a b = 1 := by
  have hp : 0 < Int.gcd x y := Int.gcd_pos_of_ne_zero_right x h
  refine ⟨x / Int.gcd x y, y / Int.gcd x y, ?_, ?_, ?_⟩
  · exact (Int.mul_ediv_cancel' (Int.gcd_dvd_left x y)).symm
  · exact (Int.mul_ediv_cancel' (Int.gcd_dvd_right x y)).symm
  · exact Int.gcd_div_gcd_div_gcd hp

/-- exact division: (g*a)/g = a and its sign variants -/
theorem div_exact (g a : Int) (h : g ≠ 0) : (g * a) / g = a := Int.mul_ediv_cancel_left a h
theorem div_exact_neg (g a : Int) (h : g ≠ 0) : (g * a) / (-g) = -a := by
  rw [Int.ediv_neg, Int.mul_ediv_cancel_left a h]

/-- canonical rationals are equal iff they are the same number -/
theorem canonical_unique (a b c d : Int) (hb : 0 < b) (hd : 0 < d) (h1 : Int.gcd a b = 1) (h2 : Int.gcd c d = 1)
    (h : a * d = c * b) : a = c ∧ b = d := by
  have hbd : b ∣ d := by
    have : b ∣ a * d := ⟨c, by linarith [mul_comm c b]⟩
    exact (Int.isCoprime_iff_gcd_eq_one.mpr h1).symm.dvd_of_dvd_mul_left this
  have hdb : d ∣ b := by
    have : d ∣ c * b := ⟨a, by linarith [mul_comm a d]⟩
    exact (Int.isCoprime_iff_gcd_eq_one.mpr h2).symm.dvd_of_dvd_mul_left this
  have e : b = d := Int.dvd_antisymm hb.le hd.le hbd hdb
  subst e
  exact ⟨mul_right_cancel₀ hb.ne' h, rfl⟩

/-- truncated remainder shrinks: termination of the loop -/
theorem tmod_lt (x y : Int) (h : y ≠ 0) : |x.tmod y| < |y| := by
  rw [Int.abs_eq_natAbs, Int.abs_eq_natAbs, Int.natAbs_tmod]
  exact_mod_cast Nat.mod_lt _ (Int.natAbs_pos.mpr h)

/-- cross-multiplication transfers through a positive common factor -/
theorem cross (rn rd n d k : Int) (hk : k ≠ 0) (h : rn * (d * k) = (n * k) * rd) : rn * d = n * rd := by
  have : (rn * d) * k = (n * rd) * k := by linarith [mul_assoc rn d k, mul_right_comm n k rd]
  exact mul_right_cancel₀ hk this
