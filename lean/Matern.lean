import Mathlib

open Finset Nat

/-- Coefficient bound: the closed form's coefficient of t^j is at most that of exp. -/
theorem matern_coef (p : ℕ) : ∀ j, j ≤ p → p ! * (2 * p - j)! * 2 ^ j ≤ (2 * p)! * (p - j)! := by
  intro j
  induction j with
  | zero => intro _; simp [mul_comm]
  | succ j ih =>
    intro h
    have h0 := ih (by omega)
    have e1 : (2 * p - j)! = (2 * p - j) * (2 * p - (j + 1))! := by
      have : 2 * p - j = (2 * p - (j + 1)) + 1 := by omega
      rw [this, Nat.factorial_succ]
    have e2 : (p - j)! = (p - j) * (p - (j + 1))! := by
      have : p - j = (p - (j + 1)) + 1 := by omega
      rw [this, Nat.factorial_succ]
    rw [e1, e2] at h0
    have hpos : 0 < p - j := by omega
    apply Nat.le_of_mul_le_mul_left _ hpos
    calc (p - j) * (p ! * (2 * p - (j + 1))! * 2 ^ (j + 1))
        = (p ! * (2 * p - (j + 1))! * 2 ^ j) * (2 * (p - j)) := by ring
      _ ≤ (p ! * (2 * p - (j + 1))! * 2 ^ j) * (2 * p - j) := by
          apply Nat.mul_le_mul_left; omega
      _ = p ! * ((2 * p - j) * (2 * p - (j + 1))!) * 2 ^ j := by ring
      _ ≤ (2 * p)! * ((p - j) * (p - (j + 1))!) := h0
      _ = (p - j) * ((2 * p)! * (p - (j + 1))!) := by ring

/-- The half-integer Matern closed form is at most one (t = c h, terms in t^(p-i), j = p - i). -/
theorem matern_le_one (p : ℕ) (t : ℝ) (ht : 0 ≤ t) :
    Real.exp (-t) * ∑ j ∈ range (p + 1),
      ((p ! * (2 * p - j)! : ℕ) : ℝ) / (((2 * p)! * (p - j)! * j ! : ℕ) : ℝ) * (2 * t) ^ j ≤ 1 := by
  have hs : ∑ j ∈ range (p + 1),
      ((p ! * (2 * p - j)! : ℕ) : ℝ) / (((2 * p)! * (p - j)! * j ! : ℕ) : ℝ) * (2 * t) ^ j
      ≤ ∑ j ∈ range (p + 1), t ^ j / (j ! : ℝ) := by
    apply sum_le_sum
    intro j hj
    have hj' : j ≤ p := by have := mem_range.mp hj; omega
    have hc := matern_coef p j hj'
    have hc' : ((p ! * (2 * p - j)! * 2 ^ j : ℕ) : ℝ) ≤ (((2 * p)! * (p - j)! : ℕ) : ℝ) := by exact_mod_cast hc
    have hd : (0 : ℝ) < (((2 * p)! * (p - j)! : ℕ) : ℝ) := by exact_mod_cast Nat.mul_pos (factorial_pos _) (factorial_pos _)
    have hf : (0 : ℝ) < (j ! : ℝ) := by exact_mod_cast factorial_pos j
    have htj : 0 ≤ t ^ j := pow_nonneg ht j
    have e : ((p ! * (2 * p - j)! : ℕ) : ℝ) / (((2 * p)! * (p - j)! * j ! : ℕ) : ℝ) * (2 * t) ^ j
        = (((p ! * (2 * p - j)! * 2 ^ j : ℕ) : ℝ) / (((2 * p)! * (p - j)! : ℕ) : ℝ)) * (t ^ j / (j ! : ℝ)) := by
      push_cast
      rw [mul_pow]
      have h1 : (((2 * p)! : ℕ) : ℝ) ≠ 0 := by exact_mod_cast (factorial_pos _).ne'
      have h2 : (((p - j)! : ℕ) : ℝ) ≠ 0 := by exact_mod_cast (factorial_pos _).ne'
      field_simp
    rw [e]
    have hq : ((p ! * (2 * p - j)! * 2 ^ j : ℕ) : ℝ) / (((2 * p)! * (p - j)! : ℕ) : ℝ) ≤ 1 := by
      rw [div_le_one hd]; exact hc'
    have hnn : 0 ≤ t ^ j / (j ! : ℝ) := div_nonneg htj hf.le
    nlinarith
  have he := Real.sum_le_exp_of_nonneg ht (p + 1)
  have hexp : 0 < Real.exp (-t) := Real.exp_pos _
  calc _ ≤ Real.exp (-t) * Real.exp t := by
        apply mul_le_mul_of_nonneg_left (hs.trans he) hexp.le
    _ = 1 := by rw [← Real.exp_add]; simp

#print axioms matern_le_one
