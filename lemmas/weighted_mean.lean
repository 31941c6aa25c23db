import Mathlib.Data.Real.Basic
import Mathlib.Tactic.Linarith
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Algebra.Order.BigOperators.Ring.Finset
import Mathlib.Algebra.Order.Field.Basic

/-- A mean with positive weights lies between common bounds of all values. -/
theorem weighted_mean {m : ℕ} (hm : 0 < m) (w x : ℕ → ℝ) (lo hi : ℝ)
    (hw : ∀ k, k < m → 0 < w k) (hx : ∀ k, k < m → lo ≤ x k ∧ x k ≤ hi) :
    lo ≤ (∑ k ∈ Finset.range m, w k * x k) / (∑ k ∈ Finset.range m, w k) ∧
      (∑ k ∈ Finset.range m, w k * x k) / (∑ k ∈ Finset.range m, w k) ≤ hi := by
  have hs : 0 < ∑ k ∈ Finset.range m, w k :=
    Finset.sum_pos (fun k hk => hw k (Finset.mem_range.mp hk)) ⟨0, Finset.mem_range.mpr hm⟩
  constructor
  · rw [le_div_iff₀ hs, Finset.mul_sum]
    refine Finset.sum_le_sum fun k hk => ?_
    have h := Finset.mem_range.mp hk
    nlinarith [hw k h, (hx k h).1]
  · rw [div_le_iff₀ hs, Finset.mul_sum]
    refine Finset.sum_le_sum fun k hk => ?_
    have h := Finset.mem_range.mp hk
    nlinarith [hw k h, (hx k h).2]
