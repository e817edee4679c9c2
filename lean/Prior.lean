import Mathlib.Analysis.SpecialFunctions.Log.Deriv
import Mathlib.Analysis.Convex.SpecificFunctions.Basic

/-! The penalty `s ↦ a*s - a*s0*log s` (with `s` the distance above the bound, `s0` the reference's):
what the obligation `barrier-plus-linear` leaves to show. -/

open Real Filter Topology

noncomputable def pen (a s0 s : ℝ) : ℝ := a * s - a * s0 * log s

/-- The minimum is at the reference. -/
theorem pen_min {a s0 s : ℝ} (ha : 0 < a) (h0 : 0 < s0) (hs : 0 < s) : pen a s0 s0 ≤ pen a s0 s := by
  have h := log_le_sub_one_of_pos (div_pos hs h0)
  rw [log_div hs.ne' h0.ne'] at h
  have h2 : s0 * (log s - log s0) ≤ s - s0 := by
    have := mul_le_mul_of_nonneg_left h h0.le
    have e : s0 * (s / s0 - 1) = s - s0 := by field_simp
    linarith
  unfold pen
  nlinarith [mul_le_mul_of_nonneg_left h2 ha.le]

/-- Its slope at `s` is `a * (1 - s0 / s)`: below the requested slope, increasing in `s`. -/
theorem pen_slope {a s0 s : ℝ} (hs : 0 < s) : HasDerivAt (pen a s0) (a * (1 - s0 / s)) s := by
  have h1 : HasDerivAt (fun s : ℝ => a * s) a s := by simpa using (hasDerivAt_id s).const_mul a
  have h2 : HasDerivAt (fun s : ℝ => a * s0 * log s) (a * s0 * s⁻¹) s := (hasDerivAt_log hs.ne').const_mul (a * s0)
  have := h1.sub h2
  have e : a * (1 - s0 / s) = a - a * s0 * s⁻¹ := by rw [div_eq_mul_inv]; ring
  rw [e]
  exact this

/-- The slope tends to the requested one. -/
theorem pen_slope_limit (a s0 : ℝ) : Tendsto (fun s : ℝ => a * (1 - s0 / s)) atTop (𝓝 a) := by
  have h : Tendsto (fun s : ℝ => s0 / s) atTop (𝓝 0) := tendsto_const_nhds.div_atTop tendsto_id
  simpa using (tendsto_const_nhds (x := a)).mul ((tendsto_const_nhds (x := (1 : ℝ))).sub h)
