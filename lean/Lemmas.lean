/-
Lemmas behind the axioms and rules of pyvc that are not definitions.  `lean Lemmas.lean` checks them (Mathlib).
Values are the elements of an arbitrary type; finite sets are `Finset`, multisets `Multiset`.  A loop over a finite
collection is `List.foldl` over a list of its elements, in whatever order the iteration has (so the closed forms, which
do not mention the order, also say that the order has no influence).
-/
import Mathlib

open Classical

namespace Verif
variable {V E : Type}

/-! ### Cardinality (theory.py: `card`, `Set` comprehensions over one set) -/

/-- {f x | x in D} has as many elements as D exactly if f is injective on D (symbol `Set`, axiom card_image). -/
theorem card_image (D : Finset E) (f : E → V) :
    ((D.image f).card = D.card ↔ ∀ u ∈ D, ∀ w ∈ D, f u = f w → u = w) ∧ (D.image f).card ≤ D.card := by
  refine ⟨?_, Finset.card_image_le⟩
  rw [Finset.card_image_iff]
  constructor
  · intro h u hu w hw e
    exact h (Finset.mem_coe.2 hu) (Finset.mem_coe.2 hw) e
  · intro h u hu w hw e
    exact h u (Finset.mem_coe.1 hu) w (Finset.mem_coe.1 hw) e

theorem card_one (s : Finset V) (h : s.card = 1) : ∃ x, s = {x} := Finset.card_eq_one.1 h

theorem mcard_one (s : Multiset V) (h : s.card = 1) : ∃ x, s = {x} := Multiset.card_eq_one.1 h

/-- An element of a set that has not exactly one element is not the only one (BASE: `other`). -/
theorem other (s : Finset V) (x : V) (hx : x ∈ s) (h : s.card ≠ 1) : ∃ y ∈ s, y ≠ x := by
  by_contra hn
  push Not at hn
  exact h (Finset.card_eq_one.2 ⟨x, by ext y; simp only [Finset.mem_singleton]; exact ⟨hn y, fun e => e ▸ hx⟩⟩)

theorem card_zero (s : Finset V) : s.card = 0 ↔ ¬ s.Nonempty := by
  rw [Finset.not_nonempty_iff_eq_empty, Finset.card_eq_zero]

/-! ### Folds (loops.py: rules `fold_union`, `fold_intersect`, `fold_mset`) -/

/-- acc' = acc ∪ G e (or any G e that does not depend on acc) for every element. -/
theorem fold_union (F : Finset V → E → Finset V) (G : E → Finset V)
    (h : ∀ A e y, y ∈ F A e ↔ y ∈ A ∨ y ∈ G e) (l : List E) (v : Finset V) (y : V) :
    y ∈ l.foldl F v ↔ y ∈ v ∨ ∃ e ∈ l, y ∈ G e := by
  induction l generalizing v with
  | nil => simp
  | cons e l ih =>
    rw [List.foldl_cons, ih, h]
    simp only [List.mem_cons, exists_eq_or_imp, or_assoc]

/-- The contribution G e is the step applied to the empty set (what the rule computes). -/
theorem fold_union_empty (F : Finset V → E → Finset V) (G : E → Finset V)
    (h : ∀ A e y, y ∈ F A e ↔ y ∈ A ∨ y ∈ G e) (e : E) : F ∅ e = G e := by
  ext y; rw [h]; simp

theorem fold_intersect (F : Finset V → E → Finset V) (H : E → V → Prop)
    (h : ∀ A e y, y ∈ F A e ↔ y ∈ A ∧ H e y) (l : List E) (v : Finset V) (y : V) :
    y ∈ l.foldl F v ↔ y ∈ v ∧ ∀ e ∈ l, H e y := by
  induction l generalizing v with
  | nil => simp
  | cons e l ih =>
    rw [List.foldl_cons, ih, h]
    simp only [List.mem_cons, forall_eq_or_imp, and_assoc]

theorem fold_sum (F : Multiset V → E → Multiset V) (G : E → Multiset V)
    (h : ∀ A e y, (F A e).count y = A.count y + (G e).count y) (l : List E) (v : Multiset V) (y : V) :
    (l.foldl F v).count y = v.count y + (l.map fun e => (G e).count y).sum := by
  induction l generalizing v with
  | nil => simp
  | cons e l ih => rw [List.foldl_cons, ih, h]; simp [add_assoc]

theorem fold_max (F : Multiset V → E → Multiset V) (G : E → Multiset V)
    (h : ∀ A e y, (F A e).count y = max (A.count y) ((G e).count y)) (l : List E) (v : Multiset V) (y : V) (n : ℕ) :
    (l.foldl F v).count y ≤ n ↔ v.count y ≤ n ∧ ∀ e ∈ l, (G e).count y ≤ n := by
  induction l generalizing v with
  | nil => simp
  | cons e l ih =>
    rw [List.foldl_cons, ih, h, max_le_iff]
    simp only [List.mem_cons, forall_eq_or_imp, and_assoc]

theorem fold_min (F : Multiset V → E → Multiset V) (G : E → Multiset V)
    (h : ∀ A e y, (F A e).count y = min (A.count y) ((G e).count y)) (l : List E) (v : Multiset V) (y : V) (n : ℕ) :
    n ≤ (l.foldl F v).count y ↔ n ≤ v.count y ∧ ∀ e ∈ l, n ≤ (G e).count y := by
  induction l generalizing v with
  | nil => simp
  | cons e l ih =>
    rw [List.foldl_cons, ih, h, le_min_iff]
    simp only [List.mem_cons, forall_eq_or_imp, and_assoc]

/-- The first element is the initial value and the loop runs over the rest: the same as the whole loop from nothing,
    if the step from nothing to the first element gives that initial value (loops.py: `full`). -/
theorem fold_first (F : V → E → V) (v0 v1 : V) (first : E) (rest : List E) (h : F v0 first = v1) :
    rest.foldl F v1 = (first :: rest).foldl F v0 := by
  rw [List.foldl_cons, h]

/-- A loop whose closed form does not mention the order gives the same for every order of the elements. -/
theorem fold_order (F : Finset V → E → Finset V) (G : E → Finset V)
    (h : ∀ A e y, y ∈ F A e ↔ y ∈ A ∨ y ∈ G e) (l m : List E) (p : ∀ e, e ∈ l ↔ e ∈ m) (v : Finset V) :
    l.foldl F v = m.foldl F v := by
  ext y
  rw [fold_union F G h, fold_union F G h]
  simp only [p]

/-- A step that commutes: every order gives the same (valuevc.py: hash of a collection). -/
theorem fold_comm (F : V → E → V) (h : ∀ a x y, F (F a x) y = F (F a y) x) (l m : List E) (p : l.Perm m) (v : V) :
    l.foldl F v = m.foldl F v := by
  have : RightCommutative F := ⟨h⟩
  exact p.foldl_eq v

/-! ### Searching loops (loops.py: rule `search`) -/

/-- Iterations that change nothing change nothing. -/
theorem fold_quiet (F : V → E → V) (l : List E) (v : V) (h : ∀ e ∈ l, F v e = v) : l.foldl F v = v := by
  induction l with
  | nil => rfl
  | cons e l ih =>
    rw [List.foldl_cons, h e (by simp)]
    exact ih fun x hx => h x (by simp [hx])

/-- Either all iterations are quiet, or there is a first one that is not, and everything before it is quiet. -/
theorem search (P : E → Prop) (l : List E) :
    (∀ e ∈ l, ¬ P e) ∨ ∃ a e b, l = a ++ e :: b ∧ P e ∧ ∀ x ∈ a, ¬ P x := by
  induction l with
  | nil => left; simp
  | cons e l ih =>
    by_cases h : P e
    · right; exact ⟨[], e, l, rfl, h, by simp⟩
    · rcases ih with ih | ⟨a, x, b, hl, hx, ha⟩
      · left; intro y hy
        rcases List.mem_cons.1 hy with rfl | hy
        · exact h
        · exact ih y hy
      · right
        refine ⟨e :: a, x, b, by rw [hl]; rfl, hx, ?_⟩
        intro y hy
        rcases List.mem_cons.1 hy with rfl | hy
        · exact h
        · exact ha y hy

/-! ### Folds as terms (verify.py: `eq_fold`) -/

/-- Equal initial values and equal steps for every item and every accumulator that keeps the invariant. -/
theorem fold_congr (F G : V → E → V) (I : V → Prop) (l : List E) (v w : V) (hv : I v) (h0 : v = w)
    (hI : ∀ a e, I a → e ∈ l → I (F a e)) (h : ∀ a e, I a → e ∈ l → F a e = G a e) : l.foldl F v = l.foldl G w := by
  subst h0
  induction l generalizing v with
  | nil => rfl
  | cons e l ih =>
    rw [List.foldl_cons, List.foldl_cons, ← h v e hv (by simp)]
    exact ih _ (hI v e hv (by simp)) (fun a x ha hx => hI a x ha (by simp [hx])) (fun a x ha hx => h a x ha (by simp [hx]))

/-! ### Joins (C20: the fold of the functional cross union is the natural join of all solutions) -/

variable {A B : Type}
def Functional (r : Finset (A × B)) : Prop := ∀ x y z, (x, y) ∈ r → (x, z) ∈ r → y = z

theorem Functional.mono {r s : Finset (A × B)} (h : r ⊆ s) (hs : Functional s) : Functional r :=
  fun x y z hy hz => hs x y z (h hy) (h hz)

/-- The cross union that keeps the functional unions. -/
noncomputable def join (S T : Finset (Finset (A × B))) : Finset (Finset (A × B)) :=
  ((S ×ˢ T).image fun p => p.1 ∪ p.2).filter Functional

theorem mem_join (S T : Finset (Finset (A × B))) (r) :
    r ∈ join S T ↔ ∃ a ∈ S, ∃ b ∈ T, r = a ∪ b ∧ Functional r := by
  unfold join
  simp only [Finset.mem_filter, Finset.mem_image, Finset.mem_product, Prod.exists]
  constructor
  · rintro ⟨⟨a, b, ⟨ha, hb⟩, rfl⟩, hf⟩
    exact ⟨a, ha, b, hb, rfl, hf⟩
  · rintro ⟨a, ha, b, hb, rfl, hf⟩
    exact ⟨⟨a, b, ⟨ha, hb⟩, rfl⟩, hf⟩

/-- A choice of one relation of every solution. -/
def Choice : List (Finset (Finset (A × B))) → List (Finset (A × B)) → Prop := List.Forall₂ fun T b => b ∈ T

/-- Folding the join over further solutions keeps exactly the functional unions of one relation of each. -/
theorem join_fold (l : List (Finset (Finset (A × B)))) (S : Finset (Finset (A × B)))
    (hS : ∀ a ∈ S, Functional a) (r : Finset (A × B)) :
    r ∈ l.foldl join S ↔ ∃ a ∈ S, ∃ c, Choice l c ∧ r = c.foldl (· ∪ ·) a ∧ Functional r := by
  have sub : ∀ (c : List (Finset (A × B))) (a : Finset (A × B)), a ⊆ c.foldl (· ∪ ·) a := by
    intro c
    induction c with
    | nil => intro a; exact Finset.Subset.refl a
    | cons b c ih => intro a; exact Finset.Subset.trans Finset.subset_union_left (ih (a ∪ b))
  induction l generalizing S with
  | nil =>
    constructor
    · intro h; exact ⟨r, h, [], List.Forall₂.nil, rfl, hS r h⟩
    · rintro ⟨a, ha, c, hc, rfl, _⟩
      cases hc
      exact ha
  | cons T l ih =>
    have hJ : ∀ a ∈ join S T, Functional a := fun a ha => by
      obtain ⟨_, _, _, _, _, hf⟩ := (mem_join S T a).1 ha
      exact hf
    rw [List.foldl_cons]
    refine (ih (join S T) hJ).trans ?_
    constructor
    · rintro ⟨ab, hab, c, hc, hr, hf⟩
      obtain ⟨a, ha, b, hb, rfl, _⟩ := (mem_join S T ab).1 hab
      exact ⟨a, ha, b :: c, List.Forall₂.cons hb hc, hr, hf⟩
    · rintro ⟨a, ha, c, hc, rfl, hf⟩
      cases hc with
      | @cons _ b _ c hb hc =>
        refine ⟨a ∪ b, (mem_join S T _).2 ⟨a, ha, b, hb, rfl, ?_⟩, c, hc, rfl, hf⟩
        exact hf.mono (sub c (a ∪ b))

end Verif

/-- The positions from `s` up to `e` of an item at the positions from `p` up to `q`. -/
theorem window_positions (p q s e : ℕ) :
    (Finset.Ico p q ∩ Finset.Ico s e).card = min q e - max p s := by
  rw [Finset.Ico_inter_Ico, Nat.card_Ico]
