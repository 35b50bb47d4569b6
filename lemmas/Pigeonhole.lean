/- Lemma instantiated by mirvc (C20): when every key of a map is an entry of a list, and the map has at least as many
   entries as the list, then every entry of the list is a key. -/
import Mathlib.Data.Finset.Card
import Mathlib.Data.Finset.Dedup

theorem pigeonhole {α : Type} [DecidableEq α] (m : Finset α) (s : List α) (hsub : ∀ k ∈ m, k ∈ s) (hlen : s.length ≤ m.card) :
    ∀ x ∈ s, x ∈ m := by
  have h1 : m ⊆ s.toFinset := fun k hk => List.mem_toFinset.mpr (hsub k hk)
  have h2 : s.toFinset.card ≤ m.card := le_trans (List.toFinset_card_le s) hlen
  have h3 : m = s.toFinset := Finset.eq_of_subset_of_card_le h1 h2
  intro x hx
  rw [h3]
  exact List.mem_toFinset.mpr hx
