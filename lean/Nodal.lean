/-
Lemmas of C08 and C19, about mathematics only (no code of the repository is modelled here): what the entries
that vf/nodalvc.py reads off the real functions mean, for every number of nodes.
`v` are the nodes, `w` the weights, both on `Finset.range n`.
-/
import Mathlib.LinearAlgebra.Lagrange
import Mathlib.Data.Nat.Choose.Basic
import Mathlib.Analysis.SpecialFunctions.Pow.Real

open Polynomial Finset

namespace Nodal

variable {n : ℕ} {v w : ℕ → ℝ} {c : ℝ}

/-- the second barycentric form is the Lagrange basis, for weights known up to a factor -/
theorem interp_entry (hc : c ≠ 0) (hv : Set.InjOn v (range n : Set ℕ))
    (hw : ∀ i ∈ range n, w i = c * Lagrange.nodalWeight (range n) v i)
    {x : ℝ} (hx : ∀ i ∈ range n, x ≠ v i) {j : ℕ} (hj : j ∈ range n) :
    (∑ i ∈ range n, w i / (x - v i)) ≠ 0 ∧
    (w j / (x - v j)) / (∑ i ∈ range n, w i / (x - v i)) = eval x (Lagrange.basis (range n) v j) := by
  have hne : (range n).Nonempty := ⟨j, hj⟩
  have hs : ∑ i ∈ range n, w i / (x - v i)
      = c * ∑ i ∈ range n, Lagrange.nodalWeight (range n) v i * (x - v i)⁻¹ := by
    rw [Finset.mul_sum]
    refine Finset.sum_congr rfl fun i hi => ?_
    rw [hw i hi]; ring
  have h0 := Lagrange.sum_nodalWeight_mul_inv_sub_ne_zero hv hx hne
  have hsum : eval x (∑ i ∈ range n, Lagrange.basis (range n) v i) = 1 := by
    rw [Lagrange.sum_basis hv hne, eval_one]
  rw [eval_finsetSum] at hsum
  have hb : ∀ i ∈ range n, eval x (Lagrange.basis (range n) v i)
      = eval x (Lagrange.nodal (range n) v) * (Lagrange.nodalWeight (range n) v i * (x - v i)⁻¹) :=
    fun i hi => Lagrange.eval_basis_not_at_node hi (hx i hi)
  rw [Finset.sum_congr rfl hb, ← Finset.mul_sum] at hsum
  refine ⟨by rw [hs]; exact mul_ne_zero hc h0, ?_⟩
  rw [hs, hb j hj, hw j hj]
  field_simp
  have h1 : eval x (Lagrange.nodal (range n) v)
      * ∑ i ∈ range n, Lagrange.nodalWeight (range n) v i / (x - v i) = 1 := by
    simpa [div_eq_mul_inv] using hsum
  have h2 : ∑ i ∈ range n, Lagrange.nodalWeight (range n) v i / (x - v i) ≠ 0 := by
    simpa [div_eq_mul_inv] using h0
  have h3 : x - v j ≠ 0 := sub_ne_zero.mpr (hx j hj)
  field_simp
  linear_combination (-(Lagrange.nodalWeight (range n) v j)) * h1

/-- at a node the Lagrange basis is a row of the identity -/
theorem interp_node (hv : Set.InjOn v (range n : Set ℕ)) {i j : ℕ} (hi : i ∈ range n) (hj : j ∈ range n) :
    eval (v i) (Lagrange.basis (range n) v j) = if j = i then 1 else 0 := by
  split_ifs with h
  · subst h; exact Lagrange.eval_basis_self hv hj
  · exact Lagrange.eval_basis_of_ne h hi

/-- derivative of the Lagrange basis at the other nodes -/
theorem diff_entry (hc : c ≠ 0) (hv : Set.InjOn v (range n : Set ℕ))
    (hw : ∀ i ∈ range n, w i = c * Lagrange.nodalWeight (range n) v i)
    {i j : ℕ} (hi : i ∈ range n) (hj : j ∈ range n) (hij : i ≠ j) :
    (w j / w i) / (v i - v j) = eval (v i) (derivative (Lagrange.basis (range n) v j)) := by
  have hne : v i - v j ≠ 0 := sub_ne_zero.mpr fun h => hij (hv (by simpa using hi) (by simpa using hj) h)
  have hb : Lagrange.basis (range n) v j * (X - C (v j))
      = C (Lagrange.nodalWeight (range n) v j) * Lagrange.nodal (range n) v := by
    rw [Lagrange.basis_eq_prod_sub_inv_mul_nodal_div hj, Lagrange.nodal_eq_mul_nodal_erase hj,
      mul_div_cancel_left₀ _ (X_sub_C_ne_zero (v j))]
    ring
  have hd := congrArg (fun p => eval (v i) (derivative p)) hb
  have h0 : eval (v i) (Lagrange.basis (range n) v j) = 0 := Lagrange.eval_basis_of_ne (Ne.symm hij) hi
  have hni : eval (v i) (derivative (Lagrange.nodal (range n) v)) = (Lagrange.nodalWeight (range n) v i)⁻¹ := by
    rw [Lagrange.nodalWeight_eq_eval_derivative_nodal hi, inv_inv]
  simp only [derivative_mul, derivative_sub, derivative_X, derivative_C, eval_add, eval_mul, eval_sub, eval_X,
    eval_C, h0, hni, zero_mul, sub_zero, mul_one, add_zero, zero_add] at hd
  have hwi : Lagrange.nodalWeight (range n) v i ≠ 0 := Lagrange.nodalWeight_ne_zero hv hi
  rw [hw i hi, hw j hj]
  rw [div_eq_iff hne, mul_div_mul_left _ _ hc, hd, div_eq_mul_inv]

/-- ... and at its own node -/
theorem diff_diag (hc : c ≠ 0) (hv : Set.InjOn v (range n : Set ℕ))
    (hw : ∀ i ∈ range n, w i = c * Lagrange.nodalWeight (range n) v i) {i : ℕ} (hi : i ∈ range n) :
    -(∑ k ∈ range n, if k = i then 0 else (w k / w i) / (v i - v k))
      = eval (v i) (derivative (Lagrange.basis (range n) v i)) := by
  have hsum : eval (v i) (derivative (∑ k ∈ range n, Lagrange.basis (range n) v k)) = 0 := by
    rw [Lagrange.sum_basis hv ⟨i, hi⟩, derivative_one, eval_zero]
  rw [derivative_sum, eval_finsetSum, ← Finset.add_sum_erase _ _ hi] at hsum
  have h : (∑ k ∈ range n, if k = i then 0 else (w k / w i) / (v i - v k))
      = ∑ k ∈ (range n).erase i, eval (v i) (derivative (Lagrange.basis (range n) v k)) := by
    rw [← Finset.add_sum_erase _ _ hi, if_pos rfl, zero_add]
    refine Finset.sum_congr rfl fun k hk => ?_
    rw [if_neg (Finset.ne_of_mem_erase hk)]
    exact diff_entry hc hv hw hi (Finset.mem_of_mem_erase hk) (Finset.ne_of_mem_erase hk).symm
  rw [h]; linarith

/-- values: every polynomial of degree below n is reproduced -/
theorem reproduce (hv : Set.InjOn v (range n : Set ℕ)) {p : ℝ[X]} (hp : p.degree < n) (x : ℝ) :
    ∑ j ∈ range n, eval x (Lagrange.basis (range n) v j) * eval (v j) p = eval x p := by
  have h := Lagrange.eq_interpolate (s := range n) (v := v) hv (by simpa using hp)
  conv_rhs => rw [h, Lagrange.interpolate_apply, eval_finsetSum]
  exact Finset.sum_congr rfl fun j _ => by rw [eval_mul, eval_C]; ring

/-- derivatives: so is its derivative, by the values of the derivatives of the basis -/
theorem reproduce_deriv (hv : Set.InjOn v (range n : Set ℕ)) {p : ℝ[X]} (hp : p.degree < n) (x : ℝ) :
    ∑ j ∈ range n, eval x (derivative (Lagrange.basis (range n) v j)) * eval (v j) p = eval x (derivative p) := by
  have h := Lagrange.eq_interpolate (s := range n) (v := v) hv (by simpa using hp)
  conv_rhs => rw [h, Lagrange.interpolate_apply, derivative_sum, eval_finsetSum]
  exact Finset.sum_congr rfl fun j _ => by
    simp only [derivative_mul, derivative_C, zero_mul, zero_add, eval_mul, eval_C]; ring

/-- the weights of an evaluation point sum to one -/
theorem unity (hv : Set.InjOn v (range n : Set ℕ)) (hn : 0 < n) (x : ℝ) :
    ∑ j ∈ range n, eval x (Lagrange.basis (range n) v j) = 1 := by
  rw [← eval_finsetSum, Lagrange.sum_basis hv ⟨0, by simpa using hn⟩, eval_one]

/-- interpolating the derivatives at the nodes gives the derivatives of the basis anywhere -/
theorem compose (hv : Set.InjOn v (range n : Set ℕ)) {j : ℕ} (hj : j ∈ range n) (x : ℝ) :
    ∑ i ∈ range n, eval x (Lagrange.basis (range n) v i) * eval (v i) (derivative (Lagrange.basis (range n) v j))
      = eval x (derivative (Lagrange.basis (range n) v j)) := by
  refine reproduce hv ?_ x
  have hd : (Lagrange.basis (range n) v j).degree = ((range n).card - 1 : ℕ) := Lagrange.degree_basis hv hj
  refine lt_of_le_of_lt (degree_derivative_le) ?_
  rw [hd, card_range]
  have : 0 < n := lt_of_le_of_lt (Nat.zero_le j) (by simpa using hj)
  exact_mod_cast Nat.sub_lt this one_pos

/-- two variables at a time: tensor products of functionals act factor by factor -/
theorem tensor {m : ℕ} (a f : ℕ → ℝ) (b g : ℕ → ℝ) :
    ∑ i ∈ range n, ∑ j ∈ range m, (a i * b j) * (f i * g j)
      = (∑ i ∈ range n, a i * f i) * ∑ j ∈ range m, b j * g j := by
  rw [Finset.sum_mul_sum]
  exact Finset.sum_congr rfl fun i _ => Finset.sum_congr rfl fun j _ => by ring

/-- products of differences of integers -/
theorem prod_diff {j : ℕ} (hj : j < n) :
    ∏ k ∈ (range n).erase j, ((j : ℝ) - k) = (-1) ^ (n - 1 - j) * (Nat.factorial j * Nat.factorial (n - 1 - j)) := by
  have hsplit : (range n).erase j = range j ∪ (range (n - 1 - j)).image (fun m => j + 1 + m) := by
    ext k; simp only [mem_erase, mem_range, mem_union, mem_image]
    constructor
    · rintro ⟨h1, h2⟩
      rcases Nat.lt_or_ge k j with h | h
      · exact Or.inl h
      · exact Or.inr ⟨k - j - 1, by omega, by omega⟩
    · rintro (h | ⟨m, h1, rfl⟩)
      · exact ⟨by omega, by omega⟩
      · exact ⟨by omega, by omega⟩
  have hdisj : Disjoint (range j) ((range (n - 1 - j)).image (fun m => j + 1 + m)) := by
    rw [Finset.disjoint_left]; intro k h1 h2
    simp only [mem_range, mem_image] at h1 h2
    obtain ⟨m, _, rfl⟩ := h2; omega
  rw [hsplit, Finset.prod_union hdisj, Finset.prod_image (fun a _ b _ h => by simpa using h)]
  have h1 : ∏ k ∈ range j, ((j : ℝ) - k) = Nat.factorial j := by
    rw [← Finset.prod_range_reflect, ← Finset.prod_range_add_one_eq_factorial, Nat.cast_prod]
    refine Finset.prod_congr rfl fun k hk => ?_
    have : k < j := by simpa using hk
    have h2 : j - 1 - k + (k + 1) = j := by omega
    have h3 : ((j - 1 - k : ℕ) : ℝ) + ((k : ℝ) + 1) = j := by exact_mod_cast h2
    push_cast; linarith
  have h2 : ∏ m ∈ range (n - 1 - j), ((j : ℝ) - ((j + 1 + m : ℕ) : ℝ)) = (-1) ^ (n - 1 - j) * Nat.factorial (n - 1 - j) := by
    rw [← Finset.prod_range_add_one_eq_factorial, Nat.cast_prod, ← Finset.card_range (n - 1 - j), ← Finset.prod_const,
      Finset.card_range, ← Finset.prod_mul_distrib]
    refine Finset.prod_congr rfl fun k _ => ?_
    push_cast; ring
  rw [h1, h2]; ring

/-- equally spaced nodes: alternating binomial coefficients -/
theorem equispaced {a h : ℝ} (hh : h ≠ 0) (hn : 0 < n) (hv : ∀ j ∈ range n, v j = a + h * j) :
    ∃ c : ℝ, c ≠ 0 ∧ ∀ j ∈ range n, (-1 : ℝ) ^ j * ((n - 1).choose j : ℝ) = c * Lagrange.nodalWeight (range n) v j := by
  refine ⟨h ^ (n - 1) * (-1) ^ (n - 1) * Nat.factorial (n - 1), ?_, ?_⟩
  · have : (Nat.factorial (n - 1) : ℝ) ≠ 0 := by exact_mod_cast Nat.factorial_ne_zero _
    have h1 : ((-1 : ℝ)) ^ (n - 1) ≠ 0 := pow_ne_zero _ (by norm_num)
    exact mul_ne_zero (mul_ne_zero (pow_ne_zero _ hh) h1) this
  · intro j hj
    have hjn : j < n := by simpa using hj
    have hw : Lagrange.nodalWeight (range n) v j = (h ^ (n - 1) * ((-1) ^ (n - 1 - j)
        * (Nat.factorial j * Nat.factorial (n - 1 - j))))⁻¹ := by
      rw [Lagrange.nodalWeight, Finset.prod_inv_distrib]
      congr 1
      rw [← prod_diff hjn]
      have hcard : ((range n).erase j).card = n - 1 := by rw [Finset.card_erase_of_mem hj, card_range]
      rw [← hcard, ← Finset.prod_const, ← Finset.prod_mul_distrib]
      refine Finset.prod_congr rfl fun k hk => ?_
      rw [hv j hj, hv k (Finset.mem_of_mem_erase hk)]; ring
    have hle : j ≤ n - 1 := by omega
    have hch : ((n - 1).choose j : ℝ) * (Nat.factorial j * Nat.factorial (n - 1 - j)) = Nat.factorial (n - 1) := by
      have := Nat.choose_mul_factorial_mul_factorial hle
      have h2 : (n - 1).choose j * (Nat.factorial j * Nat.factorial (n - 1 - j)) = Nat.factorial (n - 1) := by
        rw [← this]; ring
      exact_mod_cast h2
    have hsgn : ((-1 : ℝ)) ^ (n - 1) = (-1) ^ j * (-1) ^ (n - 1 - j) := by
      rw [← pow_add]; congr 1; omega
    have f1 : (Nat.factorial j : ℝ) ≠ 0 := by exact_mod_cast Nat.factorial_ne_zero _
    have f2 : (Nat.factorial (n - 1 - j) : ℝ) ≠ 0 := by exact_mod_cast Nat.factorial_ne_zero _
    have f3 : ((-1 : ℝ)) ^ (n - 1 - j) ≠ 0 := pow_ne_zero _ (by norm_num)
    have f4 : h ^ (n - 1) ≠ 0 := pow_ne_zero _ hh
    rw [hw, hsgn, ← hch]
    field_simp

/-- ascending nodes: the weights alternate in sign, so their squares determine them up to a factor -/
theorem alternating (hv : ∀ i ∈ range n, ∀ j ∈ range n, i < j → v i < v j) {u : ℕ → ℝ} {K : ℝ} (hK : 0 < K)
    (hu : ∀ j ∈ range n, 0 < u j) (hs : ∀ j ∈ range n, u j ^ 2 = K * Lagrange.nodalWeight (range n) v j ^ 2) :
    ∃ c : ℝ, c ≠ 0 ∧ ∀ j ∈ range n, (-1 : ℝ) ^ j * u j = c * Lagrange.nodalWeight (range n) v j := by
  refine ⟨(-1) ^ (n - 1) * Real.sqrt K, mul_ne_zero (pow_ne_zero _ (by norm_num)) (Real.sqrt_ne_zero'.mpr hK), ?_⟩
  intro j hj
  have hjn : j < n := by simpa using hj
  -- the sign of the weight
  have hsign : 0 < (-1 : ℝ) ^ (n - 1 - j) * Lagrange.nodalWeight (range n) v j := by
    have hpos : 0 < (-1 : ℝ) ^ (n - 1 - j) * ∏ k ∈ (range n).erase j, (v j - v k) := by
      have hcard : (((range n).erase j).filter (fun k => j < k)).card = n - 1 - j := by
        have : ((range n).erase j).filter (fun k => j < k) = Finset.Ioo j n := by
          ext k; simp only [mem_filter, mem_erase, mem_range, mem_Ioo]; constructor
          · rintro ⟨⟨_, h⟩, h2⟩; exact ⟨h2, h⟩
          · rintro ⟨h1, h2⟩; exact ⟨⟨by omega, h2⟩, h1⟩
        rw [this, Nat.card_Ioo]; omega
      rw [← Finset.prod_filter_mul_prod_filter_not ((range n).erase j) (fun k => j < k), ← mul_assoc]
      refine mul_pos ?_ (Finset.prod_pos fun k hk => ?_)
      · rw [← hcard, ← Finset.prod_const, ← Finset.prod_mul_distrib]
        refine Finset.prod_pos fun k hk => ?_
        simp only [mem_filter, mem_erase, mem_range] at hk
        have := hv j hj k (by simpa using hk.1.2) hk.2
        linarith
      · simp only [mem_filter, mem_erase, mem_range] at hk
        have := hv k (by simpa using hk.1.2) j hj (by omega)
        linarith
    have hprod : (∏ k ∈ (range n).erase j, (v j - v k)) ≠ 0 := by
      intro h; rw [h, mul_zero] at hpos; exact lt_irrefl _ hpos
    rw [Lagrange.nodalWeight, Finset.prod_inv_distrib]
    have h2 := inv_pos.mpr hpos
    rw [mul_inv, ← inv_pow, show ((-1 : ℝ))⁻¹ = -1 by norm_num] at h2
    exact h2
  set N := Lagrange.nodalWeight (range n) v j with hN
  have hsq : u j = Real.sqrt K * ((-1 : ℝ) ^ (n - 1 - j) * N) := by
    have h1 : (0 : ℝ) ≤ Real.sqrt K * ((-1 : ℝ) ^ (n - 1 - j) * N) := mul_nonneg (Real.sqrt_nonneg _) hsign.le
    rw [← abs_of_pos (hu j hj), ← abs_of_nonneg h1, ← sq_eq_sq_iff_abs_eq_abs]
    rw [hs j hj, ← hN, mul_pow, Real.sq_sqrt hK.le, mul_pow, ← pow_mul, mul_comm (n - 1 - j) 2, pow_mul]
    norm_num
  have hsgn : ((-1 : ℝ)) ^ (n - 1) = (-1) ^ j * (-1) ^ (n - 1 - j) := by
    rw [← pow_add]; congr 1; omega
  rw [hsq, hsgn]; ring

/-- Gauss nodes (the zeros of `P`): weights that are inversely proportional to the slopes of `P` -/
theorem gauss (hv : ∀ i ∈ range n, ∀ j ∈ range n, i < j → v i < v j) {P : ℝ[X]} {lead : ℝ} (hl : lead ≠ 0)
    (hP : P = C lead * Lagrange.nodal (range n) v) {u : ℕ → ℝ} {K : ℝ} (hK : 0 < K) (hu : ∀ j ∈ range n, 0 < u j)
    (hs : ∀ j ∈ range n, u j ^ 2 * eval (v j) (derivative P) ^ 2 = K) :
    ∃ c : ℝ, c ≠ 0 ∧ ∀ j ∈ range n, (-1 : ℝ) ^ j * u j = c * Lagrange.nodalWeight (range n) v j := by
  refine alternating hv (K := K / lead ^ 2) (by positivity) hu fun j hj => ?_
  have h := hs j hj
  rw [hP, derivative_mul, derivative_C, zero_mul, zero_add, eval_mul, eval_C] at h
  have h0 : eval (v j) (derivative (Lagrange.nodal (range n) v)) ≠ 0 := by
    intro h1; rw [h1] at h; simp at h; exact hK.ne h
  rw [Lagrange.nodalWeight_eq_eval_derivative_nodal hj, ← h]
  field_simp

/-- Gauss-Lobatto nodes (the zeros of `(1-x^2) P'`, `P` a solution of Legendre's equation): weights that are inversely
proportional to the values of `P` -/
theorem lobatto (hv : ∀ i ∈ range n, ∀ j ∈ range n, i < j → v i < v j) {P : ℝ[X]} {lead ev : ℝ} (hl : lead ≠ 0) (he : ev ≠ 0)
    (hP : (1 - X ^ 2) * derivative P = C lead * Lagrange.nodal (range n) v)
    (hode : derivative ((1 - X ^ 2) * derivative P) = C (-ev) * P) {u : ℕ → ℝ} {K : ℝ} (hK : 0 < K)
    (hu : ∀ j ∈ range n, 0 < u j) (hs : ∀ j ∈ range n, u j ^ 2 * eval (v j) P ^ 2 = K) :
    ∃ c : ℝ, c ≠ 0 ∧ ∀ j ∈ range n, (-1 : ℝ) ^ j * u j = c * Lagrange.nodalWeight (range n) v j := by
  refine gauss hv hl rfl (K := K * ev ^ 2) (by positivity) hu fun j hj => ?_
  rw [← hP, hode, eval_mul, eval_C, ← hs j hj]; ring

/-- samples at `k+1` equally spaced times, seen from the reference interval -/
theorem resample {k : ℕ} (hk : 0 < k) (t0 dt : ℝ) {p : ℝ[X]} (hp : p.degree < (k + 1 : ℕ)) :
    ∃ q : ℝ[X], q.degree < (k + 1 : ℕ) ∧ (∀ s : ℝ, eval (-1 + 2 * s / k) q = eval (t0 + s * dt) p) ∧
      ∀ s : ℝ, (2 / k : ℝ) * eval (-1 + 2 * s / k) (derivative q) = dt * eval (t0 + s * dt) (derivative p) := by
  have hk' : (k : ℝ) ≠ 0 := by positivity
  refine ⟨p.comp (C (k * dt / 2) * X + C (t0 + k * dt / 2)), ?_, fun s => ?_, fun s => ?_⟩
  · refine lt_of_le_of_lt ?_ hp
    by_cases h0 : p = 0
    · simp [h0]
    rw [degree_eq_natDegree h0]
    refine degree_le_of_natDegree_le (natDegree_comp_le.trans ?_)
    calc p.natDegree * (C (k * dt / 2) * X + C (t0 + k * dt / 2)).natDegree ≤ p.natDegree * 1 :=
          Nat.mul_le_mul_left _ natDegree_linear_le
      _ = p.natDegree := mul_one _
  · rw [eval_comp]; congr 1
    simp only [eval_add, eval_mul, eval_C, eval_X]; field_simp; ring
  · rw [derivative_comp, eval_mul, eval_comp]
    simp only [derivative_add, derivative_mul, derivative_C, derivative_X, eval_add, eval_mul, eval_C, eval_X, eval_zero, eval_one]
    have : (k : ℝ) * dt / 2 * (-1 + 2 * s / k) + (t0 + k * dt / 2) = t0 + s * dt := by field_simp; ring
    rw [this]; field_simp; ring

theorem equispaced_injOn {k : ℕ} (hk : 0 < k) (hv : ∀ j, v j = -1 + 2 * (j : ℝ) / k) : Set.InjOn v (range (k + 1) : Set ℕ) := by
  intro a _ b _ h
  have hk' : (k : ℝ) ≠ 0 := by positivity
  rw [hv, hv] at h
  have : (a : ℝ) = b := by field_simp at h; linarith
  exact_mod_cast this

/-- the extrapolation coefficients -/
theorem extrapolate {k : ℕ} (hk : 0 < k) (hv : ∀ j, v j = -1 + 2 * (j : ℝ) / k) (t0 dt : ℝ) {p : ℝ[X]}
    (hp : p.degree < (k + 1 : ℕ)) :
    ∑ j ∈ range (k + 1), eval (1 + 2 / k : ℝ) (Lagrange.basis (range (k + 1)) v j) * eval (t0 + j * dt) p
      = eval (t0 + (k + 1) * dt) p := by
  obtain ⟨q, hq, he, -⟩ := resample hk t0 dt hp
  have hk' : (k : ℝ) ≠ 0 := by positivity
  have h := reproduce (equispaced_injOn hk hv) hq (1 + 2 / k)
  have h1 : (1 + 2 / k : ℝ) = -1 + 2 * ((k : ℝ) + 1) / k := by field_simp; ring
  rw [h1, he] at h
  rw [h1, ← h]
  refine Finset.sum_congr rfl fun j _ => ?_
  rw [← he, hv]

/-- the backward-difference coefficients -/
theorem backward_difference {k : ℕ} (hk : 0 < k) (hv : ∀ j, v j = -1 + 2 * (j : ℝ) / k) (t0 dt : ℝ) {p : ℝ[X]}
    (hp : p.degree < (k + 1 : ℕ)) :
    ∑ j ∈ range (k + 1), eval (1 : ℝ) (derivative (Lagrange.basis (range (k + 1)) v j)) * (2 / k) * eval (t0 + j * dt) p
      = dt * eval (t0 + k * dt) (derivative p) := by
  obtain ⟨q, hq, he, hd⟩ := resample hk t0 dt hp
  have hk' : (k : ℝ) ≠ 0 := by positivity
  have h := reproduce_deriv (equispaced_injOn hk hv) hq 1
  have h1 : (1 : ℝ) = -1 + 2 * (k : ℝ) / k := by field_simp; ring
  rw [← hd, ← h1, ← h, Finset.mul_sum]
  refine Finset.sum_congr rfl fun j _ => ?_
  rw [← he, hv]; ring
end Nodal
