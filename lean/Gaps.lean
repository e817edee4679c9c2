import Mathlib.Analysis.SpecialFunctions.Log.Basic
import Mathlib.Order.Monotone.Basic

/-! A lower bound on the positive gaps between neighbours in sorted order is a lower bound on the
positive gaps between any two entries: what the obligation `smallest-gap` leaves to show. -/

theorem gap_all {s : ℕ → ℝ} {g : ℝ} {n : ℕ} (mono : ∀ k, k + 1 < n → s k ≤ s (k + 1))
    (h : ∀ k, k + 1 < n → 0 < s (k + 1) - s k → g ≤ s (k + 1) - s k) :
    ∀ b, b < n → ∀ a, a ≤ b → s a ≤ s b ∧ (0 < s b - s a → g ≤ s b - s a) := by
  intro b
  induction b with
  | zero =>
    intro _ a ha
    have : a = 0 := Nat.le_zero.mp ha
    subst this
    exact ⟨le_refl _, fun h0 => absurd h0 (by simp)⟩
  | succ b ih =>
    intro hb a ha
    rcases Nat.lt_or_ge b a with hab | hab
    · have : a = b + 1 := Nat.le_antisymm ha hab
      subst this
      exact ⟨le_refl _, fun h0 => absurd h0 (by simp)⟩
    · obtain ⟨h1, h2⟩ := ih (Nat.lt_of_succ_lt hb) a hab
      have m := mono b hb
      refine ⟨le_trans h1 m, fun hp => ?_⟩
      rcases lt_or_eq_of_le m with lt | eq
      · have := h b hb (sub_pos.mpr lt)
        linarith
      · rw [← eq] at hp ⊢
        exact h2 hp

/-- The variance row of the search box is ordered. -/
theorem row_ordered {lo up v : ℝ} (h0 : 0 < lo) (h : lo ≤ up) (hv : 0 < v) : Real.log (lo * v) ≤ Real.log (up * v) :=
  Real.log_le_log (mul_pos h0 hv) (mul_le_mul_of_nonneg_right h hv.le)
