import Mathlib

/-! Primitives of `F^2` and `(1 - F)^2` for the standard normal distribution function (C25). -/

open Real

noncomputable def phi (t : ℝ) : ℝ := exp (-(t ^ 2) / 2) / √(2 * π)

noncomputable def below (Phi : ℝ → ℝ) (s : ℝ) : ℝ :=
  s * Phi s ^ 2 + 2 * phi s * Phi s - Phi (√2 * s) / √π

theorem phi_deriv (t : ℝ) : HasDerivAt phi (-t * phi t) t := by
  unfold phi
  have h : HasDerivAt (fun x : ℝ => -(x ^ 2) / 2) (-t) t := by
    have k : HasDerivAt (fun x : ℝ => -(x ^ 2) / 2) (-(((2 : ℕ) : ℝ) * t ^ (2 - 1)) / 2) t :=
      ((hasDerivAt_pow 2 t).neg).div_const 2
    refine k.congr_deriv ?_
    norm_num
    ring
  refine ((h.exp).div_const (√(2 * π))).congr_deriv ?_
  ring

theorem phi_two (s : ℝ) : √2 * phi (√2 * s) / √π = 2 * phi s ^ 2 := by
  unfold phi
  have h2 : √2 * √2 = 2 := mul_self_sqrt (by norm_num)
  have hp : √π * √π = π := mul_self_sqrt pi_pos.le
  have e : √(2 * π) = √2 * √π := sqrt_mul (by norm_num) π
  have hpp : √π ≠ 0 := (sqrt_pos.mpr pi_pos).ne'
  have h2p : √2 ≠ 0 := (sqrt_pos.mpr (by norm_num : (0:ℝ) < 2)).ne'
  have x : exp (-((√2 * s) ^ 2) / 2) = exp (-(s ^ 2) / 2) * exp (-(s ^ 2) / 2) := by
    rw [← exp_add]; congr 1
    have : (√2 * s) ^ 2 = 2 * s ^ 2 := by rw [mul_pow, sq_sqrt (by norm_num)]
    rw [this]; ring
  rw [x, e]
  field_simp
  have : √2 ^ 2 = 2 := sq_sqrt (by norm_num)
  rw [this]

theorem below_deriv (Phi : ℝ → ℝ) (hP : ∀ t, HasDerivAt Phi (phi t) t) (s : ℝ) :
    HasDerivAt (below Phi) (Phi s ^ 2) s := by
  unfold below
  have h1 := (hasDerivAt_id s).mul ((hP s).pow 2)
  have h2 := ((phi_deriv s).const_mul 2).mul (hP s)
  have h3 : HasDerivAt (fun x => Phi (√2 * x) / √π) (phi (√2 * s) * √2 / √π) s := by
    have l : HasDerivAt (fun x : ℝ => √2 * x) √2 s := by
      simpa using (hasDerivAt_id s).const_mul √2
    exact ((hP (√2 * s)).comp s l).div_const √π
  have h := (h1.add h2).sub h3
  have k := phi_two s
  refine HasDerivAt.congr_deriv h ?_
  have : phi (√2 * s) * √2 / √π = 2 * phi s ^ 2 := by rw [← k]; ring
  rw [this]
  simp [id]
  ring

/-- Differences of `below` are integrals of `F^2`. -/
theorem below_integral (Phi : ℝ → ℝ) (hP : ∀ t, HasDerivAt Phi (phi t) t) (a b : ℝ) :
    ∫ u in a..b, Phi u ^ 2 = below Phi b - below Phi a := by
  apply intervalIntegral.integral_eq_sub_of_hasDerivAt (fun x _ => below_deriv Phi hP x)
  exact (Continuous.pow (continuous_iff_continuousAt.mpr fun t => (hP t).continuousAt) 2).intervalIntegrable a b

/-- Differences of the reflected form are integrals of `(1 - F)^2`. -/
theorem above_integral (Phi : ℝ → ℝ) (hP : ∀ t, HasDerivAt Phi (phi t) t)
    (hs : ∀ t, Phi (-t) = 1 - Phi t) (a b : ℝ) :
    ∫ u in a..b, (1 - Phi u) ^ 2 = below Phi (-a) - below Phi (-b) := by
  have : (fun u => (1 - Phi u) ^ 2) = fun u => (fun v => Phi v ^ 2) (-u) := by
    funext u; simp [hs]
  rw [this, intervalIntegral.integral_comp_neg (fun v => Phi v ^ 2), below_integral Phi hP]

/-- The expected improvement form is a primitive of `F`, and the second one of `2 F - F^2` up to sign. -/
theorem one_deriv (Phi : ℝ → ℝ) (hP : ∀ t, HasDerivAt Phi (phi t) t) (s : ℝ) :
    HasDerivAt (fun t => t * Phi t + phi t) (Phi s) s := by
  have h := ((hasDerivAt_id s).mul (hP s)).add (phi_deriv s)
  refine HasDerivAt.congr_deriv h ?_
  simp
