/-
Lemmas of C09, about mathematics only (no code of the repository is modelled here): rules whose nodes and weights are
those vf/nodalvc.py reads off the real functions, for every number of nodes.
`I` is the integral over [-1, 1]; `q` is a Legendre polynomial: of degree `N`, orthogonal to lower degrees, even or odd,
`±1` at the ends.
-/
import Mathlib.LinearAlgebra.Lagrange
import Mathlib.Analysis.SpecialFunctions.Integrals.Basic
import Mathlib.Topology.Algebra.Polynomial
import Mathlib.Analysis.Calculus.Deriv.Polynomial

open Polynomial Finset

namespace Quadrature

/-- the integral over [-1, 1] -/
structure Integral (I : ℝ[X] →ₗ[ℝ] ℝ) : Prop where
  ftc : ∀ p : ℝ[X], I (derivative p) = eval 1 p - eval (-1) p

structure Legendre (I : ℝ[X] →ₗ[ℝ] ℝ) (N : ℕ) (q : ℝ[X]) : Prop where
  deg : q.natDegree = N
  ne : q ≠ 0
  orth : ∀ p : ℝ[X], p.degree < N → I (q * p) = 0
  right : eval 1 q ^ 2 = 1
  left : eval (-1) q ^ 2 = 1

variable {I : ℝ[X] →ₗ[ℝ] ℝ} {N : ℕ} {q : ℝ[X]}

theorem degree_lt_of {p : ℝ[X]} {N : ℕ} (h : p.natDegree ≤ N) (h0 : p.coeff N = 0) : p.degree < N := by
  rw [degree_lt_iff_coeff_zero]
  intro m hm
  rcases Nat.lt_or_eq_of_le hm with h1 | h1
  · exact coeff_eq_zero_of_natDegree_lt (lt_of_le_of_lt h h1)
  · rw [← h1]; exact h0

/-- only the leading coefficient matters -/
theorem Legendre.lead (hq : Legendre I N q) {s : ℝ[X]} {a : ℝ} (hs : s.natDegree ≤ N) (ha : s.coeff N = a * q.coeff N) :
    I (q * s) = a * I (q * q) := by
  have h := hq.orth (s - C a * q) (degree_lt_of ?_ ?_)
  · have : q * (s - C a * q) = q * s - a • (q * q) := by rw [smul_eq_C_mul]; ring
    rw [this, map_sub, map_smul, smul_eq_mul] at h; linarith
  · refine (natDegree_sub_le _ _).trans (max_le hs ((natDegree_C_mul_le _ _).trans hq.deg.le))
  · rw [coeff_sub, coeff_C_mul, ha, sub_self]

theorem Legendre.norm (hI : Integral I) (hq : Legendre I N q) : (2 * N + 1) * I (q * q) = 2 := by
  have h := hI.ftc (X * q ^ 2)
  have hd : derivative (X * q ^ 2) = q * q + (2 : ℝ) • (q * (X * derivative q)) := by
    rw [smul_eq_C_mul, show (C (2 : ℝ) : ℝ[X]) = 2 from map_ofNat C 2, pow_two]
    simp only [derivative_mul, derivative_X]; ring
  have hl : I (q * (X * derivative q)) = N * I (q * q) := by
    refine hq.lead ?_ ?_
    · rcases Nat.eq_zero_or_pos N with h0 | h0
      · have : derivative q = 0 := derivative_of_natDegree_zero (hq.deg.trans h0)
        simp [this]
      · refine natDegree_mul_le.trans ?_
        have := natDegree_derivative_le q
        rw [natDegree_X, hq.deg] at *; omega
    · cases N with
      | zero => simp
      | succ m => rw [coeff_X_mul, coeff_derivative]; push_cast; ring
  rw [hd, map_add, map_smul, hl] at h
  simp only [eval_mul, eval_X, eval_pow, hq.right, hq.left, smul_eq_mul] at h
  linarith

/-- integration by parts against a polynomial that vanishes at the ends -/
theorem parts (hI : Integral I) (f s : ℝ[X]) :
    I ((1 - X ^ 2) * s * derivative f) = - I (f * derivative ((1 - X ^ 2) * s)) := by
  have h := hI.ftc ((1 - X ^ 2) * s * f)
  have hd : derivative ((1 - X ^ 2) * s * f) = (1 - X ^ 2) * s * derivative f + f * derivative ((1 - X ^ 2) * s) := by
    rw [derivative_mul]; ring
  have h1 : eval 1 ((1 - X ^ 2) * s * f) = 0 := by simp
  have h2 : eval (-1) ((1 - X ^ 2) * s * f) = 0 := by simp
  rw [hd, map_add, h1, h2, sub_zero] at h
  linarith

theorem weighted_natDegree {s : ℝ[X]} {m : ℕ} (hs : s.natDegree ≤ m) :
    (derivative ((1 - X ^ 2) * s)).natDegree ≤ m + 1 := by
  refine (natDegree_derivative_le _).trans ?_
  have h2 : (1 - X ^ 2 : ℝ[X]).natDegree ≤ 2 := by
    refine (natDegree_sub_le _ _).trans (max_le (by simp) (by simp))
  have := natDegree_mul_le (p := (1 - X ^ 2 : ℝ[X])) (q := s)
  omega

theorem weighted_coeff {s : ℝ[X]} {m : ℕ} (hs : s.natDegree ≤ m) :
    (derivative ((1 - X ^ 2) * s)).coeff (m + 1) = -(m + 2) * s.coeff m := by
  rw [coeff_derivative]
  have : (1 - X ^ 2 : ℝ[X]) * s = s - X ^ 2 * s := by ring
  rw [this, coeff_sub, show m + 1 + 1 = m + 2 from rfl, coeff_X_pow_mul,
    coeff_eq_zero_of_natDegree_lt (show s.natDegree < m + 2 by omega)]
  push_cast; ring

/-- `p - p(a)` divided by `x - a` -/
theorem quotient (p : ℝ[X]) (a : ℝ) {m : ℕ} (hp : p.natDegree ≤ m + 1) :
    ∃ s : ℝ[X], p - C (eval a p) = (X - C a) * s ∧ s.natDegree ≤ m ∧ s.coeff m = p.coeff (m + 1) := by
  obtain ⟨s, hs⟩ := X_sub_C_dvd_sub_C_eval (a := a) (p := p)
  have hd : s.natDegree ≤ m := by
    by_cases h0 : s = 0
    · simp [h0]
    have h1 : ((X - C a) * s).natDegree = s.natDegree + 1 := by
      rw [natDegree_mul (X_sub_C_ne_zero a) h0, natDegree_X_sub_C]; ring
    have h2 : (p - C (eval a p)).natDegree ≤ m + 1 := by
      refine (natDegree_sub_le _ _).trans (max_le hp (by simp))
    rw [hs, h1] at h2; omega
  refine ⟨s, hs, hd, ?_⟩
  have h := congrArg (fun r => coeff r (m + 1)) hs
  simp only [coeff_sub, sub_mul, coeff_C_succ, sub_zero, coeff_X_mul, coeff_C_mul,
    coeff_eq_zero_of_natDegree_lt (show s.natDegree < m + 1 by omega), mul_zero] at h
  exact h.symm

variable {n : ℕ} {v w : ℕ → ℝ}

/-- the Lagrange basis of the zeros of `m` -/
theorem basis_eq {m : ℝ[X]} {lead : ℝ} (hl : lead ≠ 0) (hm : m = C lead * Lagrange.nodal (range n) v)
    {j : ℕ} (hj : j ∈ range n) (hv : Set.InjOn v (range n : Set ℕ)) :
    ∃ κ : ℝ, Lagrange.basis (range n) v j * (X - C (v j)) = C κ * m ∧ κ * eval (v j) (derivative m) = 1 := by
  have hb : Lagrange.basis (range n) v j * (X - C (v j))
      = C (Lagrange.nodalWeight (range n) v j) * Lagrange.nodal (range n) v := by
    rw [Lagrange.basis_eq_prod_sub_inv_mul_nodal_div hj, Lagrange.nodal_eq_mul_nodal_erase hj,
      mul_div_cancel_left₀ _ (X_sub_C_ne_zero (v j))]
    ring
  have h1 : Lagrange.basis (range n) v j * (X - C (v j)) = C (Lagrange.nodalWeight (range n) v j / lead) * m := by
    rw [hb, hm, ← mul_assoc, ← C_mul]; congr 2; field_simp
  refine ⟨_, h1, ?_⟩
  have h := congrArg (fun p => eval (v j) (derivative p)) h1
  simp only [derivative_mul, derivative_sub, derivative_X, derivative_C, eval_add, eval_mul, eval_sub, eval_X, eval_C,
    Lagrange.eval_basis_self hv hj, zero_mul, sub_zero, mul_one, sub_self, mul_zero, zero_add] at h
  exact h.symm

/-- an interpolatory rule -/
theorem interpolatory (hv : Set.InjOn v (range n : Set ℕ)) {r : ℝ[X]} (hr : r.degree < n) :
    I r = ∑ j ∈ range n, I (Lagrange.basis (range n) v j) * eval (v j) r := by
  have h := Lagrange.eq_interpolate (s := range n) (v := v) hv (by simpa using hr)
  conv_lhs => rw [h, Lagrange.interpolate_apply, map_sum]
  refine Finset.sum_congr rfl fun j _ => ?_
  rw [← smul_eq_C_mul, map_smul, smul_eq_mul, mul_comm]

theorem nodal_root {m : ℝ[X]} {lead : ℝ} (hm : m = C lead * Lagrange.nodal (range n) v) {j : ℕ} (hj : j ∈ range n) :
    eval (v j) m = 0 := by
  rw [hm, eval_mul, Lagrange.eval_nodal_at_node hj, mul_zero]

theorem nodal_degree {m : ℝ[X]} {lead : ℝ} (hl : lead ≠ 0) (hm : m = C lead * Lagrange.nodal (range n) v) : m.degree = n := by
  rw [hm, degree_C_mul hl, Lagrange.degree_nodal, card_range]

/-- a rule that is right on the basis and on multiples of `m` is exact for degrees below `n + d` -/
theorem exact_of {m : ℝ[X]} {lead : ℝ} (hl : lead ≠ 0) (hm : m = C lead * Lagrange.nodal (range n) v)
    (hv : Set.InjOn v (range n : Set ℕ)) {d : ℕ} (horth : ∀ s : ℝ[X], s.degree < d → I (m * s) = 0)
    (hw : ∀ j ∈ range n, I (Lagrange.basis (range n) v j) = w j) {p : ℝ[X]} (hp : p.degree < (n + d : ℕ)) :
    ∑ j ∈ range n, w j * eval (v j) p = I p := by
  have hm0 : m ≠ 0 := by rw [hm]; exact mul_ne_zero (C_ne_zero.mpr hl) Lagrange.nodal_ne_zero
  have hdm := nodal_degree hl hm
  have hpe : m * (p / m) + p % m = p := EuclideanDomain.div_add_mod p m
  have hr : (p % m).degree < n := hdm ▸ EuclideanDomain.mod_lt p hm0
  have hs : (p / m).degree < d := by
    by_cases h0 : p / m = 0
    · rw [h0, degree_zero]; exact WithBot.bot_lt_coe d
    have h1 : m.degree ≤ p.degree := by
      by_contra hlt
      exact h0 ((Polynomial.div_eq_zero_iff hm0).mpr (lt_of_not_ge hlt))
    have h2 := degree_add_div hm0 h1
    rw [hdm] at h2
    rw [← h2] at hp
    rw [degree_eq_natDegree h0] at hp ⊢
    have : (n : ℕ) + (p / m).natDegree < n + d := by exact_mod_cast hp
    have h3 : (p / m).natDegree < d := by omega
    exact_mod_cast h3
  have hI1 : I p = I (p % m) := by
    conv_lhs => rw [← hpe, map_add, horth _ hs, zero_add]
  rw [hI1, interpolatory hv hr]
  refine Finset.sum_congr rfl fun j hj => ?_
  rw [hw j hj]
  conv_lhs => rw [← hpe, eval_add, eval_mul, nodal_root hm hj, zero_mul, zero_add]

/-- Gauss rule: the zeros of `P_n`, weights `2 / ((1 - x²) P_n'(x)²)`, exact up to degree `2n - 1` -/
theorem gauss (hI : Integral I) (hq : Legendre I n q) {lead : ℝ} (hl : lead ≠ 0)
    (hm : q = C lead * Lagrange.nodal (range n) v) (hv : Set.InjOn v (range n : Set ℕ))
    (hw : ∀ j ∈ range n, w j * (1 - v j ^ 2) * eval (v j) (derivative q) ^ 2 = 2) {p : ℝ[X]} (hp : p.degree < (2 * n : ℕ)) :
    ∑ j ∈ range n, w j * eval (v j) p = I p := by
  refine exact_of hl hm hv (d := n) (fun s hs => hq.orth s hs) (fun j hj => ?_) (by rwa [two_mul] at hp)
  obtain ⟨κ, hB, hκ⟩ := basis_eq hl hm hj hv
  have hn : 0 < n := lt_of_le_of_lt (Nat.zero_le j) (by simpa using hj)
  set B := Lagrange.basis (range n) v j with hBdef
  set g : ℝ[X] := (1 - X ^ 2) * derivative q with hg
  have hBdeg : B.natDegree ≤ n - 1 := by
    have := Lagrange.degree_basis (s := range n) hv hj
    rw [card_range] at this
    exact natDegree_le_of_degree_le this.le
  obtain ⟨k, rfl⟩ : ∃ k, n = k + 1 := ⟨n - 1, by omega⟩
  have hBk : B.natDegree ≤ k := hBdeg
  have hBc : B.coeff k = κ * q.coeff (k + 1) := by
    have h := congrArg (fun r => coeff r (k + 1)) hB
    simp only [mul_sub, coeff_sub, coeff_mul_X, coeff_mul_C, coeff_C_mul,
      coeff_eq_zero_of_natDegree_lt (show B.natDegree < k + 1 by omega), zero_mul, sub_zero] at h
    exact h
  have hqd : (derivative q).natDegree ≤ k := (natDegree_derivative_le q).trans (by rw [hq.deg]; omega)
  have hgd : g.natDegree ≤ k + 1 + 1 := by
    have h2 : (1 - X ^ 2 : ℝ[X]).natDegree ≤ 2 := (natDegree_sub_le _ _).trans (max_le (by simp) (by simp))
    have := natDegree_mul_le (p := (1 - X ^ 2 : ℝ[X])) (q := derivative q)
    rw [hg]; omega
  have hgc : g.coeff (k + 1 + 1) = -(k + 1) * q.coeff (k + 1) := by
    have : g = derivative q - X ^ 2 * derivative q := by rw [hg]; ring
    rw [this, coeff_sub, show k + 1 + 1 = k + 2 from rfl, coeff_X_pow_mul,
      coeff_eq_zero_of_natDegree_lt (show (derivative q).natDegree < k + 2 by omega), coeff_derivative]
    ring
  obtain ⟨s, hs, hsd, hsc⟩ := quotient g (v j) hgd
  have h1 : I (q * s) = -(k + 1) * I (q * q) := hq.lead hsd (by rw [hsc, hgc])
  have h2 : I (B * g) = κ * (k + 2) * I (q * q) := by
    have e : B * g = (1 - X ^ 2) * B * derivative q := by rw [hg]; ring
    rw [e, parts hI, hq.lead (a := -(k + 2) * κ) (weighted_natDegree hBk) (by rw [weighted_coeff hBk, hBc]; ring)]
    ring
  have h3 : B * g - eval (v j) g • B = κ • (q * s) := by
    rw [smul_eq_C_mul, smul_eq_C_mul]
    have : B * g - C (eval (v j) g) * B = B * (g - C (eval (v j) g)) := by ring
    rw [this, hs, ← mul_assoc, hB]; ring
  have h4 := congrArg I h3
  rw [map_sub, map_smul, map_smul, h1, h2, smul_eq_mul, smul_eq_mul] at h4
  have hnorm := hq.norm hI
  push_cast at hnorm
  have hge : eval (v j) g = (1 - v j ^ 2) * eval (v j) (derivative q) := by simp [hg]
  have h5 : (1 - v j ^ 2) * eval (v j) (derivative q) * I B = 2 * κ := by
    rw [hge] at h4; linear_combination (-1) * h4 + κ * hnorm
  have h6 : (1 - v j ^ 2) * eval (v j) (derivative q) ^ 2 * I B = 2 := by
    linear_combination (eval (v j) (derivative q)) * h5 + 2 * hκ
  have h7 := hw j hj
  have hne : (1 - v j ^ 2) * eval (v j) (derivative q) ^ 2 ≠ 0 := by
    intro h; rw [h, zero_mul] at h6; norm_num at h6
  exact mul_left_cancel₀ hne (by linear_combination h6 - h7)

/-- Gauss-Lobatto rule on `n = N + 1` points: the zeros of `(1 - x²) P_N'`, weights `2 / (N (N + 1) P_N(x)²)`, exact up to
degree `2n - 3` -/
theorem lobatto (hI : Integral I) (hN : 0 < N) (hq : Legendre I N q) {lead : ℝ} (hl : lead ≠ 0)
    (hm : (1 - X ^ 2) * derivative q = C lead * Lagrange.nodal (range (N + 1)) v)
    (hode : derivative ((1 - X ^ 2) * derivative q) = C (-(N * (N + 1) : ℝ)) * q)
    (hv : Set.InjOn v (range (N + 1) : Set ℕ))
    (hw : ∀ j ∈ range (N + 1), w j * (N * (N + 1)) * eval (v j) q ^ 2 = 2) {p : ℝ[X]} (hp : p.degree < (2 * N : ℕ)) :
    ∑ j ∈ range (N + 1), w j * eval (v j) p = I p := by
  obtain ⟨k, rfl⟩ : ∃ k, N = k + 1 := ⟨N - 1, by omega⟩
  have hqd : q.natDegree ≤ k + 1 := hq.deg.le
  have hms : ∀ s : ℝ[X], I ((1 - X ^ 2) * derivative q * s) = - I (q * derivative ((1 - X ^ 2) * s)) := fun s => by
    rw [← parts hI]; congr 1; ring
  refine exact_of hl hm hv (d := k) (fun s hs => ?_) (fun j hj => ?_) (lt_of_lt_of_le hp (by norm_cast; omega))
  · rw [hms, hq.orth, neg_zero]
    by_cases h0 : s = 0
    · simp only [h0, mul_zero, map_zero, degree_zero]; exact WithBot.bot_lt_coe _
    rw [degree_eq_natDegree h0] at hs
    have h1 : s.natDegree < k := by exact_mod_cast hs
    refine lt_of_le_of_lt (degree_le_of_natDegree_le (weighted_natDegree (m := s.natDegree) le_rfl)) ?_
    exact_mod_cast (by omega : s.natDegree + 1 < k + 1)
  obtain ⟨κ, hB, hκ⟩ := basis_eq hl hm hj hv
  set B := Lagrange.basis (range (k + 1 + 1)) v j with hBdef
  have hBdeg : B.natDegree ≤ k + 1 := by
    have := Lagrange.degree_basis (s := range (k + 1 + 1)) hv hj
    rw [card_range] at this
    exact natDegree_le_of_degree_le this.le
  have hmc : ((1 - X ^ 2) * derivative q).coeff (k + 2) = -(k + 1) * q.coeff (k + 1) := by
    have e : (1 - X ^ 2) * derivative q = derivative q - X ^ 2 * derivative q := by ring
    have hdq : (derivative q).natDegree ≤ k := (natDegree_derivative_le q).trans (by omega)
    rw [e, coeff_sub, coeff_X_pow_mul, coeff_eq_zero_of_natDegree_lt (show (derivative q).natDegree < k + 2 by omega),
      coeff_derivative]
    ring
  have hBc : B.coeff (k + 1) = -(k + 1) * κ * q.coeff (k + 1) := by
    have h := congrArg (fun r => coeff r (k + 1 + 1)) hB
    rw [coeff_C_mul, show k + 1 + 1 = k + 2 from rfl, hmc, mul_sub, coeff_sub, show k + 2 = (k + 1) + 1 from rfl, coeff_mul_X,
      coeff_mul_C, coeff_eq_zero_of_natDegree_lt (show B.natDegree < k + 1 + 1 by omega), zero_mul, sub_zero] at h
    rw [h]; ring
  obtain ⟨s, hs, hsd, hsc⟩ := quotient q (v j) hqd
  have h1 : I ((1 - X ^ 2) * derivative q * s) = (k + 2) * I (q * q) := by
    rw [hms, hq.lead (a := -(k + 2)) (weighted_natDegree hsd) (by rw [weighted_coeff hsd, hsc])]; ring
  have h2 : I (q * B) = -(k + 1) * κ * I (q * q) := hq.lead hBdeg hBc
  have h3 : q * B - eval (v j) q • B = κ • ((1 - X ^ 2) * derivative q * s) := by
    rw [smul_eq_C_mul, smul_eq_C_mul]
    have : q * B - C (eval (v j) q) * B = B * (q - C (eval (v j) q)) := by ring
    rw [this, hs, ← mul_assoc, hB]; ring
  have h4 := congrArg I h3
  rw [map_sub, map_smul, map_smul, h1, h2, smul_eq_mul, smul_eq_mul] at h4
  have hnorm := hq.norm hI
  push_cast at hnorm
  rw [hode, eval_mul, eval_C] at hκ
  push_cast at hκ
  have h5 : eval (v j) q * I B = -(2 * κ) := by linear_combination (-1) * h4 - κ * hnorm
  have h6 : ((k + 1 : ℝ) * (k + 1 + 1)) * eval (v j) q ^ 2 * I B = 2 := by
    linear_combination ((k + 1 : ℝ) * (k + 1 + 1)) * eval (v j) q * h5 + 2 * hκ
  have h7 := hw j hj
  push_cast at h7
  have hne : ((k + 1 : ℝ) * (k + 1 + 1)) * eval (v j) q ^ 2 ≠ 0 := by
    intro h; rw [h, zero_mul] at h6; norm_num at h6
  exact mul_left_cancel₀ hne (by linear_combination h6 - h7)

/-- ascending nodes that come with their opposites are symmetric -/
theorem symmetric (hv : ∀ i ∈ range n, ∀ j ∈ range n, i < j → v i < v j) (ho : ∀ j ∈ range n, ∃ k ∈ range n, v k = -v j)
    {j : ℕ} (hj : j ∈ range n) : v (n - 1 - j) = -v j := by
  have hlt : ∀ i ∈ range n, ∀ j ∈ range n, v i < v j → i < j := fun i hi j hj h => by
    by_contra hc
    rcases Nat.lt_or_eq_of_le (not_lt.mp hc) with h1 | h1
    · exact absurd (hv j hj i hi h1) (not_lt.mpr h.le)
    · rw [h1] at h; exact lt_irrefl _ h
  choose! f hf hfv using ho
  have hanti : ∀ i ∈ range n, ∀ j ∈ range n, i < j → f j < f i := fun i hi j hj h => by
    refine hlt _ (hf j hj) _ (hf i hi) ?_
    rw [hfv i hi, hfv j hj]; linarith [hv i hi j hj h]
  have hup : ∀ i, i < n → f i + i ≤ n - 1 := by
    intro i
    induction i with
    | zero => intro h; have := hf 0 (by simpa using h); simp at this; omega
    | succ i ih => intro h; have h1 := ih (by omega); have h2 := hanti i (by simp; omega) (i + 1) (by simpa using h) (by omega); omega
  have hlow : ∀ d, d < n → d ≤ f (n - 1 - d) := by
    intro d
    induction d with
    | zero => intro _; exact Nat.zero_le _
    | succ d ih =>
      intro h
      have h1 := ih (by omega)
      have h2 := hanti (n - 1 - (d + 1)) (by simp; omega) (n - 1 - d) (by simp; omega) (by omega)
      omega
  have hj' : j < n := by simpa using hj
  have h1 := hup j hj'
  have h2 := hlow (n - 1 - j) (by omega)
  rw [show n - 1 - (n - 1 - j) = j by omega] at h2
  rw [← hfv j hj]; congr 1; omega

/-- zeros of an even or odd polynomial come with their opposites -/
theorem opposite {m : ℝ[X]} {lead e : ℝ} (hl : lead ≠ 0) (hm : m = C lead * Lagrange.nodal (range n) v)
    (hp : ∀ x, eval (-x) m = e * eval x m) {j : ℕ} (hj : j ∈ range n) : ∃ k ∈ range n, v k = -v j := by
  have h0 : eval (-v j) m = 0 := by rw [hp, nodal_root hm hj, mul_zero]
  rw [hm, eval_mul, eval_C, Lagrange.eval_nodal] at h0
  have h1 := (mul_eq_zero.mp h0).resolve_left hl
  obtain ⟨k, hk, h2⟩ := Finset.prod_eq_zero_iff.mp h1
  exact ⟨k, hk, by linarith⟩

/-- the composite trapezoidal rule -/
theorem trapezoid {m : ℕ} (hm : 0 < m) (f : ℕ → ℝ) :
    ∑ i ∈ range (m + 1), (if i = 0 ∨ i = m then 1 else 2) / (m : ℝ) * f i
      = ∑ k ∈ range m, (2 / m) * ((f k + f (k + 1)) / 2) := by
  have h : ∀ i, (if i = 0 ∨ i = m then (1 : ℝ) else 2) = (if i < m then 1 else 0) + (if i = 0 then 0 else 1) + (if i > m then 1 else 0) := by
    intro i
    rcases Nat.eq_zero_or_pos i with h0 | h0
    · subst h0; simp [hm]
    · rcases lt_trichotomy i m with h1 | h1 | h1
      · simp [h1, h1.ne, h0.ne', not_lt.mpr h1.le]; norm_num
      · subst h1; simp [h0.ne']
      · simp [h1, h1.ne', h0.ne', not_lt.mpr h1.le]; norm_num
  have hm' : (m : ℝ) ≠ 0 := by positivity
  have h1 : ∑ i ∈ range (m + 1), (if i < m then (1 : ℝ) else 0) * f i = ∑ k ∈ range m, f k := by
    rw [Finset.sum_range_succ, if_neg (lt_irrefl m), zero_mul, add_zero]
    exact Finset.sum_congr rfl fun k hk => by rw [if_pos (by simpa using hk), one_mul]
  have h2 : ∑ i ∈ range (m + 1), (if i = 0 then (0 : ℝ) else 1) * f i = ∑ k ∈ range m, f (k + 1) := by
    rw [Finset.sum_range_succ']; simp
  calc ∑ i ∈ range (m + 1), (if i = 0 ∨ i = m then 1 else 2) / (m : ℝ) * f i
      = (1 / m) * (∑ i ∈ range (m + 1), (if i < m then (1 : ℝ) else 0) * f i
          + ∑ i ∈ range (m + 1), (if i = 0 then (0 : ℝ) else 1) * f i) := by
        rw [← Finset.sum_add_distrib, Finset.mul_sum]
        refine Finset.sum_congr rfl fun i hi => ?_
        have : ¬ i > m := by have := Finset.mem_range.mp hi; omega
        rw [h i, if_neg this]; ring
    _ = _ := by
        rw [h1, h2, ← Finset.sum_add_distrib, Finset.mul_sum]
        exact Finset.sum_congr rfl fun k _ => by ring

/-- its weights sum to the length of the interval -/
theorem trapezoid_sum {m : ℕ} (hm : 0 < m) :
    ∑ i ∈ range (m + 1), (if i = 0 ∨ i = m then 1 else 2) / (m : ℝ) = 2 := by
  have h := trapezoid hm (fun _ => 1)
  simp only [mul_one] at h
  rw [h]
  have hm' : (m : ℝ) ≠ 0 := by positivity
  simp; field_simp

/-- the integral over [-1, 1] is one -/
theorem integral_exists : ∃ I : ℝ[X] →ₗ[ℝ] ℝ, Integral I ∧ ∀ p : ℝ[X], I p = ∫ x in (-1 : ℝ)..1, eval x p := by
  refine ⟨{ toFun := fun p => ∫ x in (-1 : ℝ)..1, eval x p, map_add' := fun p q => ?_, map_smul' := fun c p => ?_ }, ⟨fun p => ?_⟩, fun _ => rfl⟩
  · simp only [eval_add]
    exact intervalIntegral.integral_add (p.continuous.intervalIntegrable _ _) (q.continuous.intervalIntegrable _ _)
  · simp only [eval_smul, smul_eq_mul, RingHom.id_apply]
    exact intervalIntegral.integral_const_mul c _
  · show ∫ x in (-1 : ℝ)..1, eval x (derivative p) = _
    exact intervalIntegral.integral_eq_sub_of_hasDerivAt (fun x _ => p.hasDerivAt x)
      ((derivative p).continuous.intervalIntegrable _ _)

end Quadrature
