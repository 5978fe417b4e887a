import Mathlib.Data.Real.Basic
import Mathlib.Order.Interval.Finset.Fin
import Mathlib.Data.Fintype.Card

/-- In a sorted rearrangement of finitely many reals, the entries `≤ r` are exactly the first `#{j | f j ≤ r}` ones. -/
theorem sorted_prefix {S : ℕ} (f : Fin S → ℝ) (σ : Equiv.Perm (Fin S)) (h : Monotone (f ∘ σ)) (r : ℝ) (p : Fin S) :
    p.val < (Finset.univ.filter (fun j => f j ≤ r)).card ↔ f (σ p) ≤ r := by
  have hc : (Finset.univ.filter (fun j => f j ≤ r)).card = (Finset.univ.filter (fun j => f (σ j) ≤ r)).card := by
    symm
    apply Finset.card_bij (fun a _ => σ a)
    · intro a ha; simpa using ha
    · intro a _ b _ hab; exact σ.injective hab
    · intro b hb; exact ⟨σ.symm b, by simpa using hb, by simp⟩
  rw [hc]
  constructor
  · intro hp
    by_contra hn
    have hs : (Finset.univ.filter (fun j => f (σ j) ≤ r)) ⊆ Finset.Iio p := by
      intro j hj
      rw [Finset.mem_Iio]
      by_contra hl
      have : f (σ p) ≤ f (σ j) := h (not_lt.mp hl)
      have h2 : f (σ j) ≤ r := by simpa using hj
      exact hn (le_trans this h2)
    have := Finset.card_le_card hs
    rw [Fin.card_Iio] at this
    omega
  · intro hp
    have hs : Finset.Iic p ⊆ (Finset.univ.filter (fun j => f (σ j) ≤ r)) := by
      intro j hj
      have : f (σ j) ≤ f (σ p) := h (Finset.mem_Iic.mp hj)
      simpa using le_trans this hp
    have := Finset.card_le_card hs
    rw [Fin.card_Iic] at this
    omega

#print axioms sorted_prefix
