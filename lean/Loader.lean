import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.BigOperators.Intervals

/-- Consecutive slices of length `b`, then the remaining `r` entries, hold every entry once:
    what the iteration obligations say about each batch implies the statement about the whole pass. -/
theorem batches_cover {M : Type*} [AddCommMonoid M] (f : ℕ → M) (b r q : ℕ) :
    (∑ k ∈ Finset.range q, ∑ j ∈ Finset.range b, f (k * b + j)) + ∑ j ∈ Finset.range r, f (q * b + j)
      = ∑ i ∈ Finset.range (q * b + r), f i := by
  have h : ∀ q : ℕ, (∑ k ∈ Finset.range q, ∑ j ∈ Finset.range b, f (k * b + j)) = ∑ i ∈ Finset.range (q * b), f i := by
    intro q
    induction q with
    | zero => simp
    | succ q ih => rw [Finset.sum_range_succ, ih, Nat.succ_mul, Finset.sum_range_add]
  rw [h, Finset.sum_range_add]
