import Mathlib.Data.Set.Card
import Mathlib.Data.List.Lex
import Mathlib.Data.Prod.Lex
import Mathlib.Logic.Equiv.List
import Mathlib.Tactic

/-! Proofs of the axioms and lemmas that the contracts mark [lean] or [defn].
`gvc -lean` replaces the lines `--@def NAME` and `--@stmt NAME` by the text of the contracts; the specification functions
they use are defined here, so that what is proved holds of an actual interpretation of them. -/

set_option autoImplicit false
set_option linter.all false
namespace Vp
open Classical
noncomputable section

/-! Strings are sequences of bytes, references an arbitrary type with a nil. -/
abbrev Byte := Fin 256
abbrev Str := List Byte
def lit (s : String) : Str := s.toUTF8.toList.map (fun b => Fin.ofNat 256 b.toNat)
instance : HAdd Str Str Str := ⟨List.append⟩
opaque RefT : NonemptyType
def Ref : Type := RefT.type
instance : Nonempty Ref := RefT.property
instance : Inhabited Ref := Classical.inhabited_of_nonempty inferInstance
opaque nil : Ref
opaque birth : Ref → ℤ

structure Item where
  (Id : Str) (External : Prop) («Type» : ℤ) (Name Mechanism Expanded : Str)
def Item.zero : Item := ⟨[], False, 0, [], [], []⟩
structure Rel where
  (From To : Item) (Verb Mechanism : Str) (Async : Prop) (Expanded : Str)
structure itemMove where
  (id oldParentId : Str)
structure Node where
  (Id : Str) (rest : Ref)
structure queueItem where
  (node : Node) (rest : Ref)
instance : Inhabited Item := ⟨Item.zero⟩
instance : Inhabited Rel := ⟨⟨default, default, [], [], False, []⟩⟩
instance : Inhabited itemMove := ⟨⟨[], []⟩⟩
instance : Inhabited queueItem := ⟨⟨⟨[], default⟩, default⟩⟩

def card {α : Type} (D : α → Prop) : ℤ := ((Set.ncard {x | D x} : ℕ) : ℤ)

/-! What the grammar reads, and the key of a relationship, are arbitrary; the key is injective (proved of relIdFromIds). -/
structure KeyF where
  (k : Str → Str → Str) (f t : Str → Str) (hf : ∀ a b, f (k a b) = a) (ht : ∀ a b, t (k a b) = b)
instance : Inhabited KeyF := ⟨
  fun a b => List.replicate (Encodable.encode (a, b)) 0,
  fun s => ((Encodable.decode (α := Str × Str) s.length).getD ([], [])).1,
  fun s => ((Encodable.decode (α := Str × Str) s.length).getD ([], [])).2,
  by intro a b; simp, by intro a b; simp⟩
opaque keyF : KeyF
def relKey := keyF.k
opaque pId : Str → Str
opaque pSec : Str → Str
opaque isTree : Str → Prop
opaque tRoot : Str → Str
opaque tHas : Str → Str → Prop
opaque tUp : Str → Str → Str
opaque attrItem : Str → Prop
opaque attrRel : Str → Prop
opaque attrKey : Str → Str
opaque attrVal : Str → Str
opaque itoa : ℤ → Str
opaque kid : (Ref → Ref) → (Ref → Ref → Prop) → (Ref → Item) → Ref → Str → Ref
def startsWith (s p : Str) : Prop := ∃ t : Str, s = p + t

/-! ## Reaching along links -/
inductive Reach {α : Type} (z : α) (E : α → α) : α → α → Prop
  | refl {x : α} : x ≠ z → Reach z E x x
  | up {x y : α} : x ≠ z → E x ≠ z → Reach z E (E x) y → Reach z E x y

namespace Reach
variable {α : Type} {z : α} {E F : α → α} {x y w t r c p d : α}
theorem nl (h : Reach z E x y) : x ≠ z := by cases h <;> assumption
theorem nr (h : Reach z E x y) : y ≠ z := by
  induction h with
  | refl h => exact h
  | up _ _ _ ih => exact ih
theorem trans (h : Reach z E x y) (k : Reach z E y w) : Reach z E x w := by
  induction h with
  | refl _ => exact k
  | up a b _ ih => exact up a b (ih k)
theorem step (h : Reach z E x y) : x = y ∨ (E x ≠ z ∧ Reach z E (E x) y) := by
  cases h with
  | refl _ => left; rfl
  | up _ b c => right; exact ⟨b, c⟩
theorem linear (h : Reach z E x y) (k : Reach z E x w) : Reach z E y w ∨ Reach z E w y := by
  induction h with
  | refl _ => left; exact k
  | @up x y a b c ih =>
    rcases k.step with e | ⟨_, k'⟩
    · subst e; right; exact up a b c
    · exact ih k'
theorem top (h : Reach z E x t) (n : x ≠ t) : ∃ w, E w = t ∧ Reach z E x w ∧ w ≠ z := by
  induction h with
  | refl _ => exact absurd rfl n
  | @up x t a b c ih =>
    by_cases e : E x = t
    · exact ⟨x, e, refl a, a⟩
    · obtain ⟨w, h1, h2, h3⟩ := ih e
      exact ⟨w, h1, up a b h2, h3⟩
/-- following the links of something that reaches a root never comes back -/
theorem acyc2 (hr : E r = z) (h : Reach z E x r) (n : E x ≠ z) : ¬ Reach z E (E x) x := by
  induction h with
  | refl _ => exact absurd hr n
  | @up x r a b c ih =>
    intro k
    by_cases e : E (E x) = z
    · rcases k.step with q | ⟨q, _⟩
      · rw [q] at e; exact b e
      · exact q e
    · apply ih hr e
      rcases k.step with q | ⟨_, q⟩
      · simp only [q]; exact refl a
      · exact q.trans (up a b (refl b))
theorem acyc1 (hr : E r = z) (h : Reach z E x r) (k : Reach z E x y) (l : Reach z E y x) : x = y := by
  rcases k.step with e | ⟨n, k'⟩
  · exact e
  · exact absurd (k'.trans l) (acyc2 hr h n)
end Reach

def under (E : Ref → Ref) (x y : Ref) : Prop := Reach nil E x y
def within (E : Ref → Ref) (x y : Ref) : Prop := under E x y
def pick {α : Type} (d : α) (P : α → Prop) : α := if h : ∃ x, P x then Classical.choose h else d
theorem pick_spec {α : Type} {d : α} {P : α → Prop} (h : ∃ x, P x) : P (pick d P) := by
  unfold pick; rw [dif_pos h]; exact Classical.choose_spec h
def tw (E : Ref → Ref) (x t : Ref) : Ref := pick nil (fun w => E w = t ∧ under E x w ∧ w ≠ nil)
def rootOf (E : Ref → Ref) (x : Ref) : Ref := pick nil (fun r => under E x r ∧ E r = nil)
def nodeOf (E : Ref → Ref) (K : Ref → Str) (r : Ref) (k : Str) : Ref := pick nil (fun n => under E n r ∧ K n = k)
def ownerOf (E C : Ref → Ref) (r s : Ref) : Ref := pick nil (fun n => under E n r ∧ C n = s)
def EP (P C : Ref → Ref) (S : Ref → Ref → Prop) (n : Ref) : Ref := if P n ≠ nil ∧ S (C (P n)) n then P n else nil
def KEYS (I : Ref → Ref) (D : Ref → Str) (n : Ref) : Str := if I n = nil then lit "" else D (I n)
def mv (F : Ref → Ref) (c p : Ref) : Ref → Ref := Function.update F c p
def NM (E : Ref → Ref) (K : Ref → Str) (r : Ref) (id : Str) : Ref := if id = lit "" then r else nodeOf E K r id
def kidsOf (D : Str → Prop) (E : Ref → Ref) (K : Ref → Str) (r : Ref) (id x : Str) : Prop := D x ∧ K (E (nodeOf E K r x)) = id
def mark (_ : ℤ) : Prop := True
def ITEMV (I : Ref → Ref) (A : Ref → Str) (B : Ref → Prop) (T : Ref → ℤ) (N M X : Ref → Str) (n : Ref) : Item :=
  if I n = nil then Item.zero else ⟨A (I n), B (I n), T (I n), N (I n), M (I n), X (I n)⟩
def tU (T x : Str) : Str := tUp T x
def sUnder (U : Str → Str) (x y : Str) : Prop := Reach (lit "") U x y

def unmN (F : Ref → Ref) (N : Str → Ref) (M : ℤ → itemMove) : ℕ → (Ref → Ref)
  | 0 => F
  | k+1 => unmN (mv F (N (M k).id) (N (M k).oldParentId)) N M k
def unm (F : Ref → Ref) (N : Str → Ref) (M : ℤ → itemMove) (n : ℤ) : Ref → Ref := unmN F N M n.toNat
def legalN (F : Ref → Ref) (N : Str → Ref) (M : ℤ → itemMove) : ℕ → Prop
  | 0 => True
  | k+1 => ¬ within F (N (M k).oldParentId) (N (M k).id) ∧ legalN (mv F (N (M k).id) (N (M k).oldParentId)) N M k
def legal (F : Ref → Ref) (N : Str → Ref) (M : ℤ → itemMove) (n : ℤ) : Prop := legalN F N M n.toNat

def nnilN (A : ℤ → Ref) : ℕ → ℤ
  | 0 => 0
  | k+1 => nnilN A k + (if A k ≠ nil then 1 else 0)
def nnil (A : ℤ → Ref) (n : ℤ) : ℤ := nnilN A n.toNat

def attrsHasN (A : ℤ → Str) (k : Str) : ℕ → Prop
  | 0 => False
  | n+1 => attrKey (A n) = k ∨ attrsHasN A k n
def attrsHas (A : ℤ → Str) (n : ℤ) (k : Str) : Prop := attrsHasN A k n.toNat
def attrsValN (A : ℤ → Str) (k : Str) : ℕ → Str
  | 0 => []
  | n+1 => if attrKey (A n) = k then attrVal (A n) else attrsValN A k n
def attrsVal (A : ℤ → Str) (n : ℤ) (k : Str) : Str := attrsValN A k n.toNat
def attrsOkN (ok : Str → Prop) (A : ℤ → Str) : ℕ → Prop
  | 0 => True
  | n+1 => attrsOkN ok A n ∧ ok (A n) ∧ ¬ attrsHas A n (attrKey (A n))
def attrsItem (A : ℤ → Str) (n : ℤ) : Prop := attrsOkN attrItem A n.toNat
def attrsRel (A : ℤ → Str) (n : ℤ) : Prop := attrsOkN attrRel A n.toNat

def kidsOk (A : ℤ → Str) (n : ℤ) : Prop :=
  (∀ j : ℤ, 0 ≤ j ∧ j < n → isTree (A j) ∧ tRoot (A j) ≠ lit "" ∧ tHas (A j) (tRoot (A j)))
  ∧ (∀ (i j : ℤ) (x : Str), 0 ≤ i ∧ i < n ∧ 0 ≤ j ∧ j < n ∧ tHas (A i) x ∧ tHas (A j) x → i = j)
def errText (s : Str) : Prop := ∃ (c : ℤ) (d : Str), startsWith s (itoa c + lit " error \"" + d)
def okText (s : Str) : Prop := ∃ x y : Str, s = x + lit "\n$$$$\n200 ok " + y ∨ s = x + lit "\n$$$$\n200 ok "

--@def keyOf
--@def relLess
--@def tkey
--@def bel

/-! ## Sequences as sets -/
def inS {α β : Type} (f : α → β → Prop) (A : ℤ → α) (n : ℤ) (s : β) : Prop := ∃ k : ℤ, 0 ≤ k ∧ k < n ∧ f (A k) s
def ixS {α β : Type} (f : α → β → Prop) (A : ℤ → α) (n : ℤ) (s : β) : ℤ := pick 0 (fun k => 0 ≤ k ∧ k < n ∧ f (A k) s)
theorem inS_elim {α β : Type} {f : α → β → Prop} {A : ℤ → α} {n : ℤ} {s : β} (h : inS f A n s) :
    0 ≤ ixS f A n s ∧ ixS f A n s < n ∧ f (A (ixS f A n s)) s := pick_spec h
def inSl := @inS Str Str (fun a s => a = s)
def ixSl := @ixS Str Str (fun a s => a = s)
def inIt := @inS Item Str (fun a s => a.Id = s)
def ixIt := @ixS Item Str (fun a s => a.Id = s)
def inRl := @inS Rel Str (fun a s => keyOf a = s)
def ixRl := @ixS Rel Str (fun a s => keyOf a = s)
def inTx := @inS Str Str (fun a s => tkey a = s)
def ixTx := @ixS Str Str (fun a s => tkey a = s)
def inQ (A : ℤ → queueItem) (n : ℤ) (T x : Str) : Prop := inS (fun a s => bel T s a.node.Id) A n x
def ixQ (A : ℤ → queueItem) (n : ℤ) (T x : Str) : ℤ := ixS (fun a s => bel T s a.node.Id) A n x

theorem card_seq {α β : Type} (f : α → β) (A : ℤ → α) (n : ℤ) (D : β → Prop) (hn : 0 ≤ n)
    (h1 : ∀ j : ℤ, 0 ≤ j → j < n → D (f (A j)))
    (h2 : ∀ i j : ℤ, 0 ≤ i → i < n → 0 ≤ j → j < n → f (A i) = f (A j) → i = j)
    (h3 : ∀ k, D k → ∃ j : ℤ, 0 ≤ j ∧ j < n ∧ f (A j) = k) : n = card D := by
  have e : {x | D x} = (fun k : ℤ => f (A k)) '' (↑(Finset.Ico (0:ℤ) n) : Set ℤ) := by
    ext k; constructor
    · intro hk; obtain ⟨j, a, b, c⟩ := h3 k hk
      exact ⟨j, by simp [a, b], c⟩
    · rintro ⟨j, hj, rfl⟩
      simp at hj; exact h1 j hj.1 hj.2
  unfold card; rw [e, Set.ncard_image_of_injOn, Set.ncard_coe_finset]
  · simp; omega
  · intro i hi j hj h
    simp at hi hj
    exact h2 i j hi.1 hi.2 hj.1 hj.2 h

/-- two strictly increasing sequences with the same elements are the same -/
theorem same_seq_aux {L : Type} [LinearOrder L] (a b : ℤ → L) (n m : ℤ)
    (ha : ∀ i j : ℤ, 0 ≤ i → i < j → j < n → a i < a j) (hb : ∀ i j : ℤ, 0 ≤ i → i < j → j < m → b i < b j)
    (hab : ∀ i : ℤ, 0 ≤ i → i < n → ∃ j : ℤ, 0 ≤ j ∧ j < m ∧ b j = a i)
    (hba : ∀ j : ℤ, 0 ≤ j → j < m → ∃ i : ℤ, 0 ≤ i ∧ i < n ∧ a i = b j) :
    ∀ k : ℕ, (k : ℤ) < n → (k : ℤ) < m ∧ a k = b k := by
  intro k
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    intro hk
    obtain ⟨j, j0, jm, ej⟩ := hab k (by omega) hk
    have hj : (k : ℤ) ≤ j := by
      by_contra hc; rw [not_le] at hc
      obtain ⟨j', rfl⟩ := Int.eq_ofNat_of_zero_le j0
      have := (ih j' (by omega) (by omega)).2
      have l := ha j' k (by omega) hc hk
      rw [this, ej] at l; exact lt_irrefl _ l
    have km : (k : ℤ) < m := by omega
    refine ⟨km, ?_⟩
    obtain ⟨i, i0, in_, ei⟩ := hba k (by omega) km
    have hi : (k : ℤ) ≤ i := by
      by_contra hc; rw [not_le] at hc
      obtain ⟨i', rfl⟩ := Int.eq_ofNat_of_zero_le i0
      have := (ih i' (by omega) (by omega)).2
      have l := hb i' k (by omega) hc km
      rw [← this, ei] at l; exact lt_irrefl _ l
    apply le_antisymm
    · rcases hi.lt_or_eq with h | h
      · have := ha k i (by omega) h in_; rw [ei] at this; exact this.le
      · rw [← ei, h]
    · rcases hj.lt_or_eq with h | h
      · have := hb k j (by omega) h jm; rw [ej] at this; exact this.le
      · rw [← ej, ← h]
theorem same_seq {L : Type} [LinearOrder L] (a b : ℤ → L) (n m : ℤ) (hn : 0 ≤ n) (hm : 0 ≤ m)
    (ha : ∀ i j : ℤ, 0 ≤ i → i < j → j < n → a i < a j) (hb : ∀ i j : ℤ, 0 ≤ i → i < j → j < m → b i < b j)
    (hab : ∀ i : ℤ, 0 ≤ i → i < n → ∃ j : ℤ, 0 ≤ j ∧ j < m ∧ b j = a i)
    (hba : ∀ j : ℤ, 0 ≤ j → j < m → ∃ i : ℤ, 0 ≤ i ∧ i < n ∧ a i = b j) :
    n = m ∧ ∀ i : ℤ, 0 ≤ i → i < n → a i = b i := by
  have p := same_seq_aux a b n m ha hb hab hba
  have q := same_seq_aux b a m n hb ha hba hab
  constructor
  · by_contra h
    rcases lt_or_gt_of_ne h with h | h
    · obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hn
      exact absurd (q k h).1 (lt_irrefl _)
    · obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le hm
      exact absurd (p k h).1 (lt_irrefl _)
  · intro i i0 hi
    obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le i0
    exact (p k hi).2

/-! ## Trees that are well-formed, trees that are equal: greatest fixed points -/
def okStep (C : Ref → Ref) (S : Ref → Ref → Prop) (V : Ref → Item) (P : Ref → Prop) (n : Ref) : Prop :=
  n ≠ nil ∧ C n ≠ nil ∧ ∀ x, S (C n) x → x ≠ nil ∧ P x ∧ kid C S V n (V x).Id = x
def okT (C : Ref → Ref) (S : Ref → Ref → Prop) (V : Ref → Item) (n : Ref) : Prop :=
  ∃ P : Ref → Prop, P n ∧ ∀ m, P m → okStep C S V P m
def eqStep (C : Ref → Ref) (S : Ref → Ref → Prop) (V : Ref → Item) (P : Ref → Ref → Prop) (a b : Ref) : Prop :=
  V a = V b
  ∧ (∀ x, S (C a) x → S (C b) (kid C S V b (V x).Id) ∧ V (kid C S V b (V x).Id) = V x ∧ P x (kid C S V b (V x).Id))
  ∧ (∀ y, S (C b) y → S (C a) (kid C S V a (V y).Id) ∧ V (kid C S V a (V y).Id) = V y ∧ P (kid C S V a (V y).Id) y)
def eqT (C : Ref → Ref) (S : Ref → Ref → Prop) (V : Ref → Item) (a b : Ref) : Prop :=
  ∃ P : Ref → Ref → Prop, P a b ∧ ∀ m k, P m k → eqStep C S V P m k

--@stmt EP_def
--@stmt KEYS_def
--@stmt under_refl
--@stmt under_nn
--@stmt under_trans
--@stmt under_step
--@stmt under_up
--@stmt root_eq
--@stmt root_top
--@stmt nodeOf_ax
--@stmt ownerOf_ax
--@stmt TopUnfold
--@stmt Kids
--@stmt StepUp
--@stmt Linear
--@stmt Acyclic
--@stmt Old
--@stmt New
--@stmt Agree
--@stmt Stay
--@stmt Named
--@stmt Move
--@stmt Splice
--@stmt Sib
--@stmt inSl_elim
--@stmt inSl_intro
--@stmt inSl_ext
--@stmt inIt_elim
--@stmt inIt_intro
--@stmt inIt_ext
--@stmt inRl_elim
--@stmt inRl_intro
--@stmt inRl_ext
--@stmt inTx_elim
--@stmt inTx_intro
--@stmt inTx_ext
--@stmt inQ_elim
--@stmt inQ_intro
--@stmt inQ_ext
--@stmt CountSl
--@stmt CountIt
--@stmt CountRl
--@stmt kidsOf_def
--@stmt Mv
--@stmt mv_same
--@stmt mv_back
--@stmt Within
--@stmt ITEMV_def
--@stmt OkT
--@stmt EqT
--@stmt eqT_item
--@stmt SameCard
--@stmt SameSeqT
--@stmt SameSeqS
--@stmt SameSeqI
--@stmt SameSeqR
--@stmt errText_def
--@stmt nnil_def
--@stmt NM_def
--@stmt mark_def
--@stmt unm_0
--@stmt unm_n
--@stmt unm_ext
--@stmt legal_0
--@stmt legal_n
--@stmt legal_ext
--@stmt okText_def
--@stmt okText_def0
--@stmt attrsItem_def
--@stmt attrsRel_def
--@stmt attrsHas_def
--@stmt attrsVal_def
--@stmt kidsOk_def
--@stmt tU_def
--@stmt su_refl
--@stmt su_nn
--@stmt su_trans
--@stmt su_one
--@stmt su_up

namespace Proof
theorem EP_def : Stmt.EP_def := by intro P C S n; rfl
theorem KEYS_def : Stmt.KEYS_def := by intro I D n; rfl
theorem under_refl : Stmt.under_refl := fun E x h => Reach.refl h
theorem under_nn : Stmt.under_nn := fun E x y h => ⟨h.nl, h.nr⟩
theorem under_trans : Stmt.under_trans := fun E x y z h => h.1.trans h.2
theorem under_step : Stmt.under_step := fun E x y h => h.step
theorem under_up : Stmt.under_up := fun E x y h => Reach.up h.1 h.2.1 h.2.2
theorem root_top : Stmt.root_top := by
  intro E x h
  have k : ∃ r, under E x r ∧ E r = nil := ⟨x, Reach.refl h.1, h.2⟩
  have s := pick_spec (d := nil) k
  rcases s.1.step with e | ⟨n, _⟩
  · exact e.symm
  · exact absurd h.2 n
theorem root_eq : Stmt.root_eq := by
  intro E x y h
  have e : (fun r => under E x r ∧ E r = nil) = (fun r => under E y r ∧ E r = nil) := by
    funext r; apply propext; constructor
    · rintro ⟨a, b⟩
      refine ⟨?_, b⟩
      rcases h.linear a with q | q
      · exact q
      · rcases q.step with f | ⟨n, _⟩
        · subst f; exact q
        · exact absurd b n
    · rintro ⟨a, b⟩; exact ⟨h.trans a, b⟩
  show rootOf E x = rootOf E y
  unfold rootOf; rw [e]
theorem nodeOf_ax : Stmt.nodeOf_ax := fun E K r n h =>
  pick_spec (P := fun m => under E m r ∧ K m = K n) ⟨n, h, rfl⟩
theorem Named : Stmt.Named := fun E K r n id h =>
  pick_spec (P := fun m => under E m r ∧ K m = id) ⟨n, h.1, h.2⟩
theorem ownerOf_ax : Stmt.ownerOf_ax := fun E C r n h =>
  pick_spec (P := fun m => under E m r ∧ C m = C n) ⟨n, h, rfl⟩
theorem TopUnfold : Stmt.TopUnfold := by
  intro E t x h
  exact pick_spec (P := fun w => E w = t ∧ under E x w ∧ w ≠ nil) (Reach.top h.1 h.2)
theorem Kids : Stmt.Kids := by
  rintro E t x ⟨a, b, rfl⟩; exact Reach.up a b (Reach.refl b)
theorem StepUp : Stmt.StepUp := fun E x h => Reach.up h.1 h.2 (Reach.refl h.2)
theorem Linear : Stmt.Linear := fun E y z x h => h.1.linear h.2
theorem Acyclic : Stmt.Acyclic := by
  intro E r hr
  refine ⟨fun x y h => Reach.acyc1 hr h.1 h.2.1 h.2.2, fun x h => ?_⟩
  have k := Reach.acyc2 hr h.1 h.2
  refine ⟨k, fun e => k ?_⟩
  rw [e]; exact Reach.refl h.1.nl
theorem Old : Stmt.Old := by
  intro E N h x y ⟨k, b⟩
  induction k with
  | refl _ => exact b
  | up _ _ _ ih => exact ih (h _)
theorem New : Stmt.New := by
  intro E N h x y ⟨k, b⟩
  rcases k.step with e | ⟨n, _⟩
  · exact e
  · exact absurd (h x b) n
theorem Agree : Stmt.Agree := by
  intro E F N h x y b
  constructor
  · intro k
    induction k with
    | refl n => exact Reach.refl n
    | @up x y n m _ ih =>
      obtain ⟨e, eb⟩ := h x b
      rw [e] at m ih
      exact Reach.up n m (ih eb)
  · intro k
    induction k with
    | refl n => exact Reach.refl n
    | @up x y n m _ ih =>
      obtain ⟨e, eb⟩ := h x b
      have ih := ih eb
      rw [← e] at m ih
      exact Reach.up n m ih
theorem Stay : Stmt.Stay := by
  intro F N h x y ⟨k, b⟩
  induction k with
  | refl _ => exact b
  | up _ m _ ih => exact ih (h _ ⟨b, m⟩)

section move
variable {E F : Ref → Ref} {c p : Ref}
theorem mvA (hF : ∀ x, F x = if x = c then p else E x) {x y : Ref} (h : under E x y) (n : ¬ under E x c) : under F x y := by
  induction h with
  | refl a => exact Reach.refl a
  | @up x y a b k ih =>
    have xc : x ≠ c := fun e => n (e ▸ Reach.refl a)
    have e : F x = E x := by rw [hF]; simp [xc]
    refine Reach.up a (by rw [e]; exact b) ?_
    rw [e]; exact ih (fun q => n (Reach.up a b q))
theorem mvB (hF : ∀ x, F x = if x = c then p else E x) {x y : Ref} (h : under F x y) (n : ¬ under E x c) : under E x y := by
  induction h with
  | refl a => exact Reach.refl a
  | @up x y a b k ih =>
    have xc : x ≠ c := fun e => n (e ▸ Reach.refl a)
    have e : F x = E x := by rw [hF]; simp [xc]
    rw [e] at b k ih
    exact Reach.up a b (ih (fun q => n (Reach.up a b q)))
theorem mvC (hF : ∀ x, F x = if x = c then p else E x) {x y : Ref} (h : under E x y) (k : under E y c) (nc : E c = nil ∨ ¬ under E (E c) c) : under F x y := by
  induction h with
  | refl a => exact Reach.refl a
  | @up x y a b q ih =>
    have xc : x ≠ c := by
      rintro rfl
      rcases nc with nc | nc
      · exact b nc
      · exact nc (q.trans k)
    have e : F x = E x := by rw [hF]; simp [xc]
    refine Reach.up a (by rw [e]; exact b) ?_
    rw [e]; exact ih k
theorem mvD (hF : ∀ x, F x = if x = c then p else E x) {x y : Ref} (h : under F x y) (k : under E x c) (np : ¬ under E p c) :
    (under E x y ∧ under E y c) ∨ under E p y := by
  induction h with
  | refl a => left; exact ⟨Reach.refl a, k⟩
  | @up x y a b q ih =>
    by_cases xc : x = c
    · subst xc
      have e : F x = p := by rw [hF]; simp
      rw [e] at q
      right; exact mvB hF q np
    · have e : F x = E x := by rw [hF]; simp [xc]
      rw [e] at b q ih
      have k' : under E (E x) c := by
        rcases Reach.step k with f | ⟨_, f⟩
        · exact absurd f xc
        · exact f
      rcases ih k' with ⟨u, v⟩ | u
      · left; exact ⟨Reach.up a b u, v⟩
      · right; exact u
end move
theorem Move : Stmt.Move := by
  rintro E F c p ⟨hF, hc, hp, np, nc⟩ x y
  have hF' : ∀ x, F x = if x = c then p else E x := hF
  by_cases k : under E x c
  · simp only [k, if_true]
    constructor
    · intro h; exact mvD hF' h k np
    · rintro (⟨a, b⟩ | b)
      · exact mvC hF' a b nc
      · have q : under F p y := mvA hF' b np
        have s : under F x c := mvC hF' k (Reach.refl hc) nc
        refine s.trans (Reach.up hc ?_ ?_)
        · rw [hF']; simpa using hp
        · rw [hF']; simp; exact q
  · simp only [k, if_false]
    exact ⟨fun h => mvB hF' h k, fun h => mvA hF' h k⟩

theorem Splice : Stmt.Splice := by
  rintro E F d r ⟨hF, hd, hdr, hr, ne⟩
  have hF' : ∀ x, F x = if x = d then nil else if E x = d then E d else E x := hF
  have ed : E d ≠ nil := by
    rcases Reach.step hdr with e | ⟨n, _⟩
    · exact absurd e ne
    · exact n
  have nself : E d ≠ d := by
    intro e; have := Reach.acyc2 hr hdr ed; rw [e] at this; exact this (Reach.refl hd)
  have Fd : F d = nil := by rw [hF']; simp
  have nd : ∀ x, F x ≠ d := by
    intro x; rw [hF']; split_ifs with a b
    · exact hd.symm
    · exact nself
    · exact b
  have toE : ∀ x y, under F x y → x ≠ d → under E x y := by
    intro x y h; induction h with
    | refl a => intro _; exact Reach.refl a
    | @up x y a b q ih =>
      intro xd
      have ih' := ih (nd x)
      have e : F x = if E x = d then E d else E x := by rw [hF']; simp [xd]
      rw [e] at b ih'
      split_ifs at b ih' with w
      · exact Reach.up a (by rw [w]; exact hd) (by rw [w]; exact Reach.up hd ed ih')
      · exact Reach.up a b ih'
  have toF : ∀ x y, under E x y → y ≠ d → (x ≠ d → under F x y) ∧ (x = d → under F (E d) y) := by
    intro x y h; induction h with
    | @refl x a => intro yd; exact ⟨fun _ => Reach.refl a, fun e => absurd e yd⟩
    | @up x y a b q ih =>
      intro yd
      obtain ⟨i1, i2⟩ := ih yd
      constructor
      · intro xd
        have e : F x = if E x = d then E d else E x := by rw [hF']; simp [xd]
        by_cases w : E x = d
        · rw [if_pos w] at e
          exact Reach.up a (by rw [e]; exact ed) (by rw [e]; exact i2 w)
        · rw [if_neg w] at e
          exact Reach.up a (by rw [e]; exact b) (by rw [e]; exact i1 w)
      · rintro rfl
        exact i1 nself
  constructor
  · intro x y h
    exact ⟨fun k => toE x y k h.1, fun k => (toF x y k h.2).1 h.1⟩
  · intro x h
    rcases h with h | h
    · by_contra xd
      obtain ⟨w, w1, _, _⟩ := Reach.top h xd
      exact nd w w1
    · rcases Reach.step h with e | ⟨n, _⟩
      · exact e.symm
      · exact absurd Fd n

theorem Sib : Stmt.Sib := by
  rintro E t R ⟨hR, ht⟩ x a b ⟨ha, hb, ea, eb⟩
  have tn : t ≠ nil := Reach.nl ht
  have key : ∀ a b, under E x a → under E a b → E a = t → E b = t → a = b := by
    intro a b xa ab ea eb
    rcases Reach.step ab with e | ⟨_, k⟩
    · exact e
    · exfalso
      rw [ea] at k
      have bt : under E b t := Reach.up k.nr (by rw [eb]; exact tn) (by rw [eb]; exact Reach.refl tn)
      have e := Reach.acyc1 hR ht k bt
      subst e
      have := Reach.acyc2 hR ht (by rw [eb]; exact tn)
      rw [eb] at this; exact this (Reach.refl tn)
  rcases Reach.linear ha hb with k | k
  · exact key a b ha k ea eb
  · exact (key b a hb k eb ea).symm

theorem inSl_elim : Stmt.inSl_elim := fun A n s h => inS_elim h
theorem inSl_intro : Stmt.inSl_intro := fun A n s k h => ⟨k, h⟩
theorem inSl_ext : Stmt.inSl_ext := by
  rintro A n B m s ⟨h, nm, e⟩
  obtain ⟨a, b, c⟩ := inS_elim h
  exact ⟨_, a, lt_of_lt_of_le b nm, e.trans c⟩
theorem inIt_elim : Stmt.inIt_elim := fun A n s h => inS_elim h
theorem inIt_intro : Stmt.inIt_intro := fun A n s k h => ⟨k, h⟩
theorem inIt_ext : Stmt.inIt_ext := by
  rintro A n B m s ⟨h, nm, e⟩
  obtain ⟨a, b, c⟩ := inS_elim h
  exact ⟨_, a, lt_of_lt_of_le b nm, e.trans c⟩
theorem inRl_elim : Stmt.inRl_elim := fun A n s h => inS_elim h
theorem inRl_intro : Stmt.inRl_intro := fun A n s k h => ⟨k, h⟩
theorem inRl_ext : Stmt.inRl_ext := by
  rintro A n B m s ⟨h, nm, e⟩
  obtain ⟨a, b, c⟩ := inS_elim h
  exact ⟨_, a, lt_of_lt_of_le b nm, e.trans c⟩
theorem inTx_elim : Stmt.inTx_elim := fun A n s h => inS_elim h
theorem inTx_intro : Stmt.inTx_intro := fun A n s k h => ⟨k, h⟩
theorem inTx_ext : Stmt.inTx_ext := by
  rintro A n B m s ⟨h, nm, e⟩
  obtain ⟨a, b, c⟩ := inS_elim h
  refine ⟨_, a, lt_of_lt_of_le b nm, ?_⟩
  exact (congrArg tkey e).trans c
theorem inQ_elim : Stmt.inQ_elim := fun A n T x h => inS_elim h
theorem inQ_intro : Stmt.inQ_intro := fun A n T x j h => ⟨j, h⟩
theorem inQ_ext : Stmt.inQ_ext := by
  rintro A n B m T x ⟨h, nm, e⟩
  obtain ⟨a, b, c⟩ := inS_elim h
  refine ⟨_, a, nm, ?_⟩
  show bel T x (B _).node.Id
  have e' : B (ixQ A n T x) = A (ixQ A n T x) := e
  rw [show ixS (fun a s => bel T s a.node.Id) A n x = ixQ A n T x from rfl, e']
  exact c
theorem CountSl : Stmt.CountSl := by
  rintro A n D ⟨h0, h1, h2, h3⟩
  refine card_seq (fun a => a) A n D h0 (fun j a b => h1 j ⟨a, b⟩) (fun i j a b c d e => h2 i j ?_) h3
  tauto
theorem CountIt : Stmt.CountIt := by
  rintro A n D ⟨h0, h1, h2, h3⟩
  refine card_seq (fun a : Item => a.Id) A n D h0 (fun j a b => h1 j ⟨a, b⟩) (fun i j a b c d e => h2 i j ?_) h3
  tauto
theorem CountRl : Stmt.CountRl := by
  rintro A n D ⟨h0, h1, h2, h3⟩
  refine card_seq keyOf A n D h0 (fun j a b => h1 j ⟨a, b⟩) (fun i j a b c d e => h2 i j ?_) h3
  tauto
theorem kidsOf_def : Stmt.kidsOf_def := fun D E K r id x => Iff.rfl
theorem Mv : Stmt.Mv := fun F c p => rfl
theorem mv_same : Stmt.mv_same := by
  rintro F c p rfl; exact Function.update_eq_self c F
theorem mv_back : Stmt.mv_back := by
  rintro F c p v rfl; show Function.update (Function.update F c p) c (F c) = F
  rw [Function.update_idem, Function.update_eq_self]
theorem Within : Stmt.Within := fun E x y => Iff.rfl
theorem ITEMV_def : Stmt.ITEMV_def := fun I A B T N M X n => rfl
theorem OkT : Stmt.OkT := by
  intro C S V n
  have unf : ∀ n, okT C S V n → okStep C S V (okT C S V) n := by
    rintro n ⟨P, hn, h⟩
    obtain ⟨a, b, c⟩ := h n hn
    exact ⟨a, b, fun x hx => ⟨(c x hx).1, ⟨P, (c x hx).2.1, h⟩, (c x hx).2.2⟩⟩
  have fold : ∀ n, okStep C S V (okT C S V) n → okT C S V n := by
    intro n hn
    refine ⟨fun m => okStep C S V (okT C S V) m, hn, ?_⟩
    rintro m ⟨a, b, c⟩
    exact ⟨a, b, fun x hx => ⟨(c x hx).1, unf x (c x hx).2.1, (c x hx).2.2⟩⟩
  exact ⟨fun h => unf n h, fun h => fold n h⟩
theorem EqT : Stmt.EqT := by
  intro C S V a b
  have unf : ∀ a b, eqT C S V a b → eqStep C S V (eqT C S V) a b := by
    rintro a b ⟨P, hn, h⟩
    obtain ⟨u, v, w⟩ := h a b hn
    exact ⟨u, fun x hx => ⟨(v x hx).1, (v x hx).2.1, P, (v x hx).2.2, h⟩, fun x hx => ⟨(w x hx).1, (w x hx).2.1, P, (w x hx).2.2, h⟩⟩
  have fold : ∀ a b, eqStep C S V (eqT C S V) a b → eqT C S V a b := by
    intro a b hn
    refine ⟨fun m k => eqStep C S V (eqT C S V) m k, hn, ?_⟩
    rintro m k ⟨u, v, w⟩
    exact ⟨u, fun x hx => ⟨(v x hx).1, (v x hx).2.1, unf _ _ (v x hx).2.2⟩, fun x hx => ⟨(w x hx).1, (w x hx).2.1, unf _ _ (w x hx).2.2⟩⟩
  exact ⟨fun h => unf a b h, fun h => fold a b h⟩
theorem eqT_item : Stmt.eqT_item := by
  intro C S V a b h
  exact ((EqT C S V a b).1 h).1
theorem SameCard : Stmt.SameCard := by
  rintro C S V a b ⟨h1, h2⟩
  show card _ = card _
  unfold card
  congr 1
  refine Set.ncard_congr (fun x _ => kid C S V b (V x).Id) ?_ ?_ ?_
  · intro x hx; exact (h1 x hx).1
  · intro x y hx hy e
    have p := h1 x hx; have q := h1 y hy
    have : (V x).Id = (V y).Id := by
      rw [← p.2.1, ← q.2.1]; exact congrArg (fun z => (V z).Id) e
    rw [← p.2.2, ← q.2.2, this]
  · intro y hy
    have p := h2 y hy
    exact ⟨_, p.1, by rw [p.2.1]; exact p.2.2⟩
theorem SameSeqT : Stmt.SameSeqT := by
  rintro A n B m V ⟨hn, hm, ha, hb, hab, hba⟩
  obtain ⟨p, q⟩ := same_seq (fun i => (V (A i)).Id) (fun i => (V (B i)).Id) n m hn hm
    (fun i j a b c => ha i j ⟨a, b, c⟩) (fun i j a b c => hb i j ⟨a, b, c⟩)
    (fun i a b => by obtain ⟨j, h⟩ := hab i ⟨a, b⟩; exact ⟨j, by tauto⟩) (fun i a b => by obtain ⟨j, h⟩ := hba i ⟨a, b⟩; exact ⟨j, by tauto⟩)
  exact ⟨p, fun i h => q i h.1 h.2⟩
theorem SameSeqS : Stmt.SameSeqS := by
  rintro A n B m ⟨hn, hm, ha, hb, hab, hba⟩
  obtain ⟨p, q⟩ := same_seq A B n m hn hm
    (fun i j a b c => ha i j ⟨a, b, c⟩) (fun i j a b c => hb i j ⟨a, b, c⟩)
    (fun i a b => by obtain ⟨j, h⟩ := hab i ⟨a, b⟩; exact ⟨j, by tauto⟩) (fun i a b => by obtain ⟨j, h⟩ := hba i ⟨a, b⟩; exact ⟨j, by tauto⟩)
  exact ⟨p, fun i h => q i h.1 h.2⟩
theorem SameSeqI : Stmt.SameSeqI := by
  rintro A n B m ⟨hn, hm, ha, hb, hab, hba⟩
  obtain ⟨p, q⟩ := same_seq (fun i => (A i).Id) (fun i => (B i).Id) n m hn hm
    (fun i j a b c => ha i j ⟨a, b, c⟩) (fun i j a b c => hb i j ⟨a, b, c⟩)
    (fun i a b => by obtain ⟨j, h⟩ := hab i ⟨a, b⟩; exact ⟨j, by tauto⟩) (fun i a b => by obtain ⟨j, h⟩ := hba i ⟨a, b⟩; exact ⟨j, by tauto⟩)
  exact ⟨p, fun i h => q i h.1 h.2⟩
theorem keyOf_inj {x y : Rel} (h : keyOf x = keyOf y) : x.From.Id = y.From.Id ∧ x.To.Id = y.To.Id := by
  have h' : keyF.k x.From.Id x.To.Id = keyF.k y.From.Id y.To.Id := h
  constructor
  · have := congrArg keyF.f h'; rwa [keyF.hf, keyF.hf] at this
  · have := congrArg keyF.t h'; rwa [keyF.ht, keyF.ht] at this
def lexId (x : Rel) : Str ×ₗ Str := toLex (x.From.Id, x.To.Id)
theorem lexId_lt {x y : Rel} (h : relLess x y) : lexId x < lexId y := by
  unfold lexId; rw [Prod.Lex.toLex_lt_toLex]; exact h
theorem lexId_key {x y : Rel} : lexId x = lexId y ↔ keyOf x = keyOf y := by
  constructor
  · intro h
    have h' : (x.From.Id, x.To.Id) = (y.From.Id, y.To.Id) := toLex.injective h
    have a := congrArg Prod.fst h'; have b := congrArg Prod.snd h'
    simp only at a b
    show keyF.k _ _ = keyF.k _ _; rw [a, b]
  · intro h; obtain ⟨a, b⟩ := keyOf_inj h; unfold lexId; rw [a, b]
theorem SameSeqR : Stmt.SameSeqR := by
  rintro A n B m ⟨hn, hm, ha, hb, hab, hba⟩
  obtain ⟨p, q⟩ := same_seq (fun i => lexId (A i)) (fun i => lexId (B i)) n m hn hm
    (fun i j a b c => lexId_lt (ha i j ⟨a, b, c⟩)) (fun i j a b c => lexId_lt (hb i j ⟨a, b, c⟩))
    (fun i a b => by obtain ⟨j, h⟩ := hab i ⟨a, b⟩; exact ⟨j, h.1, h.2.1, lexId_key.2 h.2.2⟩)
    (fun i a b => by obtain ⟨j, h⟩ := hba i ⟨a, b⟩; exact ⟨j, h.1, h.2.1, lexId_key.2 h.2.2⟩)
  exact ⟨p, fun i h => lexId_key.1 (q i h.1 h.2)⟩
theorem errText_def : Stmt.errText_def := fun s c d h => ⟨c, d, h⟩
theorem nnilN_nn (A : ℤ → Ref) : ∀ n, 0 ≤ nnilN A n := by
  intro n; induction n with
  | zero => exact le_refl _
  | succ k ih => unfold nnilN; split_ifs <;> omega
theorem nnil_def : Stmt.nnil_def := by
  intro A n h
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h
  refine ⟨nnilN_nn _ _, rfl, ?_⟩
  show nnilN A ((k : ℤ) + 1).toNat = _
  rw [show ((k : ℤ) + 1).toNat = k + 1 by omega]
  rfl
theorem NM_def : Stmt.NM_def := fun E K r id => rfl
theorem mark_def : Stmt.mark_def := fun n => trivial
theorem unm_0 : Stmt.unm_0 := by
  intro F N M n h; show unmN F N M n.toNat = F
  rw [Int.toNat_of_nonpos h]; rfl
theorem unm_n : Stmt.unm_n := by
  intro F N M n h
  obtain ⟨k, rfl⟩ : ∃ k : ℕ, n = k + 1 := ⟨(n-1).toNat, by omega⟩
  show unmN F N M ((k : ℤ) + 1).toNat = unmN _ N M ((k : ℤ) + 1 - 1).toNat
  rw [show ((k : ℤ) + 1).toNat = k + 1 by omega, show ((k : ℤ) + 1 - 1).toNat = k by omega, show ((k : ℤ) + 1 - 1) = k by omega]
  rfl
theorem unm_ext : Stmt.unm_ext := by
  intro F N M L n h
  show unmN F N M n.toNat = unmN F N L n.toNat
  have : ∀ k : ℕ, (k : ℤ) ≤ n ∨ k = 0 → ∀ F, unmN F N M k = unmN F N L k := by
    intro k; induction k with
    | zero => intro _ F; rfl
    | succ k ih =>
      intro hk F
      have e : M k = L k := h k ⟨by omega, by rcases hk with q | q <;> omega⟩
      show unmN _ N M k = unmN _ N L k
      rw [e]; exact ih (by rcases hk with q | q <;> omega) _
  exact this _ (by rcases le_or_gt n 0 with q | q <;> omega) F
theorem legal_0 : Stmt.legal_0 := by
  intro F N M n h; show legalN F N M n.toNat
  rw [Int.toNat_of_nonpos h]; trivial
theorem legal_n : Stmt.legal_n := by
  intro F N M n h
  obtain ⟨k, rfl⟩ : ∃ k : ℕ, n = k + 1 := ⟨(n-1).toNat, by omega⟩
  show legalN F N M ((k : ℤ) + 1).toNat ↔ _ ∧ legalN _ N M ((k : ℤ) + 1 - 1).toNat
  rw [show ((k : ℤ) + 1).toNat = k + 1 by omega, show ((k : ℤ) + 1 - 1).toNat = k by omega, show ((k : ℤ) + 1 - 1) = k by omega]
  rfl
theorem legal_ext : Stmt.legal_ext := by
  intro F N M L n h
  show legalN F N M n.toNat ↔ legalN F N L n.toNat
  have : ∀ k : ℕ, (k : ℤ) ≤ n ∨ k = 0 → ∀ F, legalN F N M k ↔ legalN F N L k := by
    intro k; induction k with
    | zero => intro _ F; exact Iff.rfl
    | succ k ih =>
      intro hk F
      have e : M k = L k := h k ⟨by omega, by rcases hk with q | q <;> omega⟩
      show (_ ∧ legalN _ N M k) ↔ (_ ∧ legalN _ N L k)
      rw [e, ih (by rcases hk with q | q <;> omega) _]
  exact this _ (by rcases le_or_gt n 0 with q | q <;> omega) F
theorem okText_def : Stmt.okText_def := fun x y => ⟨x, y, Or.inl rfl⟩
theorem okText_def0 : Stmt.okText_def0 := fun x => ⟨x, [], Or.inr rfl⟩
theorem pos_cases (n : ℤ) : n ≤ 0 ∧ n.toNat = 0 ∨ ∃ k : ℕ, n = k + 1 ∧ n.toNat = k + 1 ∧ (n - 1).toNat = k ∧ n - 1 = k := by
  by_cases h : n ≤ 0
  · left; exact ⟨h, Int.toNat_of_nonpos h⟩
  · right; exact ⟨(n-1).toNat, by omega, by omega, rfl, by omega⟩
theorem attrsHas_def : Stmt.attrsHas_def := by
  intro A n k
  show attrsHasN A k n.toNat ↔ n > 0 ∧ (attrKey (A (n-1)) = k ∨ attrsHasN A k (n-1).toNat)
  rcases pos_cases n with ⟨a, b⟩ | ⟨j, a, b, c, d⟩
  · rw [b]; constructor
    · intro h; exact absurd h id
    · intro h; omega
  · rw [b, c, d]; constructor
    · intro h; exact ⟨by omega, h⟩
    · intro h; exact h.2
theorem attrsVal_def : Stmt.attrsVal_def := by
  intro A n k h
  show attrsValN A k n.toNat = if attrKey (A (n-1)) = k then attrVal (A (n-1)) else attrsValN A k (n-1).toNat
  rcases pos_cases n with ⟨a, b⟩ | ⟨j, a, b, c, d⟩
  · omega
  · rw [b, c, d]; rfl
theorem attrsOk_def (ok : Str → Prop) (A : ℤ → Str) (n : ℤ) : attrsOkN ok A n.toNat ↔
    (n ≤ 0 ∨ (attrsOkN ok A (n-1).toNat ∧ ok (A (n-1)) ∧ ¬ attrsHas A (n-1) (attrKey (A (n-1))))) := by
  rcases pos_cases n with ⟨a, b⟩ | ⟨j, a, b, c, d⟩
  · rw [b]; exact ⟨fun _ => Or.inl a, fun _ => trivial⟩
  · rw [b, c, d]; constructor
    · intro h; right; exact h
    · rintro (h | h)
      · omega
      · exact h
theorem attrsItem_def : Stmt.attrsItem_def := fun A n => attrsOk_def attrItem A n
theorem attrsRel_def : Stmt.attrsRel_def := fun A n => attrsOk_def attrRel A n
theorem kidsOk_def : Stmt.kidsOk_def := by
  intro A n; constructor
  · rintro ⟨a, b⟩
    refine ⟨fun j h => ?_, fun i j x h => b i j x (by tauto)⟩
    have := a j h; tauto
  · rintro ⟨a, b⟩
    refine ⟨fun j h => ?_, fun i j x h => b i j x (by tauto)⟩
    have := a j h; tauto
theorem tU_def : Stmt.tU_def := fun T x => rfl
theorem su_refl : Stmt.su_refl := fun U x h => Reach.refl h
theorem su_nn : Stmt.su_nn := fun U x y h => ⟨h.nl, h.nr⟩
theorem su_trans : Stmt.su_trans := fun U x y z h => h.1.trans h.2
theorem su_one : Stmt.su_one := by
  rintro U x y ⟨a, b, rfl⟩; exact Reach.up a b (Reach.refl b)
theorem su_up : Stmt.su_up := fun U x y h => h.1.trans (Reach.up h.1.nr h.2 (Reach.refl h.2))
end Proof
