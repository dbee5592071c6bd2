/-
Cycle walking (contract of impl::index_shuffle<B>, property C02).

T maps the finite set D (blocks of B bits) into itself and is injective; S is the
set of valid positions.  pyvc/irproof.py proves, for the code, that it computes
T, T^2, ... from its argument and stops at the first value in S.  Here: the walk
from a valid position always ends, and different positions end differently.
-/
import Mathlib.Data.Fintype.Card
import Mathlib.Dynamics.PeriodicPts.Defs
import Mathlib.Data.Fintype.Pigeonhole

variable {D : Type} (T : D → D) (S : Set D)

/-- The walk from x ends at y: y is the first of T x, T (T x), ... in S. -/
def EndsAt (x y : D) : Prop :=
  ∃ n, 0 < n ∧ T^[n] x = y ∧ y ∈ S ∧ ∀ m, 0 < m → m < n → T^[m] x ∉ S

theorem walk_ends [Finite D] (hT : Function.Injective T) {x : D} (hx : x ∈ S) :
    ∃ y, EndsAt T S x y := by
  obtain ⟨n, hn, hp⟩ : ∃ n, 0 < n ∧ T^[n] x = x := by
    obtain ⟨a, b, hab, h⟩ := Finite.exists_ne_map_eq_of_infinite (fun n : ℕ => T^[n] x)
    rcases Nat.lt_or_gt_of_ne hab with l | l
    · refine ⟨b - a, by omega, ?_⟩
      apply hT.iterate a
      rw [← Function.iterate_add_apply, h]
      congr 2; omega
    · refine ⟨a - b, by omega, ?_⟩
      apply hT.iterate b
      rw [← Function.iterate_add_apply, ← h]
      congr 2; omega
  classical
  have hex : ∃ k, 0 < k ∧ T^[k] x ∈ S := ⟨n, hn, by rw [hp]; exact hx⟩
  refine ⟨T^[Nat.find hex] x, Nat.find hex, (Nat.find_spec hex).1, rfl,
    (Nat.find_spec hex).2, fun m h0 hm hS => Nat.find_min hex hm ⟨h0, hS⟩⟩

theorem walk_unique {x y z : D} (hy : EndsAt T S x y) (hz : EndsAt T S x z) : y = z := by
  obtain ⟨n, hn, e1, s1, f1⟩ := hy
  obtain ⟨m, hm, e2, s2, f2⟩ := hz
  rcases Nat.lt_trichotomy n m with l | l | l
  · exact absurd (e1 ▸ s1) (f2 n hn l)
  · rw [← e1, ← e2, l]
  · exact absurd (e2 ▸ s2) (f1 m hm l)

theorem walk_injective (hT : Function.Injective T) {x x' y : D} (hx : x ∈ S) (hx' : x' ∈ S)
    (h : EndsAt T S x y) (h' : EndsAt T S x' y) : x = x' := by
  obtain ⟨n, hn, e, _, f⟩ := h
  obtain ⟨m, hm, e', _, f'⟩ := h'
  rcases Nat.lt_trichotomy n m with l | l | l
  · exfalso
    have : T^[m - n] x' = x := by
      apply hT.iterate n
      rw [← Function.iterate_add_apply, e, ← e']
      congr 2; omega
    exact f' (m - n) (by omega) (by omega) (this ▸ hx)
  · subst l
    exact hT.iterate n (e.trans e'.symm)
  · exfalso
    have : T^[n - m] x = x' := by
      apply hT.iterate m
      rw [← Function.iterate_add_apply, e', ← e]
      congr 2; omega
    exact f (n - m) (by omega) (by omega) (this ▸ hx')

#print axioms walk_ends
#print axioms walk_unique
#print axioms walk_injective
