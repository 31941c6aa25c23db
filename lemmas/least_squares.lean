import Mathlib.Data.Matrix.Mul
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.Ring
import Mathlib.Tactic.Linarith
import Mathlib.Algebra.Order.BigOperators.Group.Finset

open Matrix

/-- Forward and backward substitution with a Cholesky factor solve the system. -/
theorem substitution {m : ℕ} (A L : Matrix (Fin m) (Fin m) ℝ) (b y c : Fin m → ℝ)
    (hA : A = L * Lᵀ) (hy : L *ᵥ y = b) (hc : Lᵀ *ᵥ c = y) : A *ᵥ c = b := by
  rw [hA, ← Matrix.mulVec_mulVec, hc, hy]

/-- A solution of the normal equations minimises the sum of squared residuals. -/
theorem normal_equations {n m : ℕ} (B : Matrix (Fin n) (Fin m) ℝ) (f : Fin n → ℝ) (c : Fin m → ℝ)
    (h : (Bᵀ * B) *ᵥ c = Bᵀ *ᵥ f) (d : Fin m → ℝ) :
    (f - B *ᵥ c) ⬝ᵥ (f - B *ᵥ c) ≤ (f - B *ᵥ d) ⬝ᵥ (f - B *ᵥ d) := by
  have e : f - B *ᵥ d = (f - B *ᵥ c) + B *ᵥ (c - d) := by
    rw [Matrix.mulVec_sub]; funext i; simp only [Pi.add_apply, Pi.sub_apply]; ring
  have o : (f - B *ᵥ c) ⬝ᵥ (B *ᵥ (c - d)) = 0 := by
    rw [Matrix.dotProduct_mulVec, ← Matrix.mulVec_transpose, Matrix.mulVec_sub, Matrix.mulVec_mulVec, h, sub_self, zero_dotProduct]
  have p : 0 ≤ (B *ᵥ (c - d)) ⬝ᵥ (B *ᵥ (c - d)) :=
    Finset.sum_nonneg fun i _ => mul_self_nonneg _
  rw [e, add_dotProduct, dotProduct_add, dotProduct_add, o, dotProduct_comm (B *ᵥ (c - d)), o]
  linarith
