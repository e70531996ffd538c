import Mathlib.FieldTheory.Finite.Basic

/-- An odd prime passes the strong (Miller-Rabin) test to every base it does not divide. -/
theorem strong_test {p : ℕ} [Fact p.Prime] (r d : ℕ) (h : d * 2 ^ r = p - 1) (a : ZMod p) (ha : a ≠ 0) :
    a ^ d = 1 ∨ ∃ i < r, a ^ (d * 2 ^ i) = -1 := by
  have key : ∀ k, a ^ (d * 2 ^ k) = 1 → a ^ d = 1 ∨ ∃ i < k, a ^ (d * 2 ^ i) = -1 := by
    intro k
    induction k with
    | zero => intro h0; left; simpa using h0
    | succ k ih =>
      intro hk
      have sq : (a ^ (d * 2 ^ k)) ^ 2 = 1 := by
        rw [← pow_mul]
        have : d * 2 ^ k * 2 = d * 2 ^ (k + 1) := by ring
        rw [this]; exact hk
      rcases (show a ^ (d * 2 ^ k) = 1 ∨ a ^ (d * 2 ^ k) = -1 from by simpa using sq_eq_sq_iff_eq_or_eq_neg.mp (sq.trans (one_pow 2).symm)) with h1 | h1
      · rcases ih h1 with h2 | ⟨i, hi, h2⟩
        · exact Or.inl h2
        · exact Or.inr ⟨i, Nat.lt_succ_of_lt hi, h2⟩
      · exact Or.inr ⟨k, Nat.lt_succ_self k, h1⟩
  apply key
  rw [h]
  exact ZMod.pow_card_sub_one_eq_one ha
