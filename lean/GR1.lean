/-  Justification of the axioms that dv/theory.py gives to the SMT solvers: the specification symbols are *defined*
    here and every schema is proved.  No axioms beyond Lean's own are used (see the `#print axioms` at the end).  -/
namespace GR1
variable {I O : Type}
abbrev P4 (I O : Type) := I → O → I → O → Prop
abbrev P2 (I O : Type) := I → O → Prop

structure Spec (I O : Type) where
  E : I → O → I → Prop
  S : P4 I O
  A : Nat → P4 I O
  G : Nat → P4 I O
  nA : Nat
  nG : Nat
  /-- the one-step operator: any operator that is monotone under the safety assumptions (instances below) -/
  cx : P4 I O → P2 I O
  cx_mono : ∀ T1 T2 : P4 I O, (∀ i o a c, E i o a → T1 i o a c → T2 i o a c) → ∀ i o, cx T1 i o → cx T2 i o

/-- the standard one-step operator: for every input allowed by the assumptions the system has an answer in T -/
def stdCox (E : I → O → I → Prop) (T : P4 I O) : P2 I O := fun i o => ∀ a, E i o a → ∃ c, T i o a c
theorem stdCox_mono (E : I → O → I → Prop) (T1 T2 : P4 I O) (h : ∀ i o a c, E i o a → T1 i o a c → T2 i o a c) :
    ∀ i o, stdCox E T1 i o → stdCox E T2 i o := by
  intro i o h1 a ha
  obtain ⟨c, hc⟩ := h1 a ha
  exact ⟨c, h i o a c ha hc⟩
/-- the interleaved one-step operator: the outputs B first, then the input, then the outputs A -/
def interCox {B A : Type} (E : I → B × A → I → Prop) (T : P4 I (B × A)) : P2 I (B × A) :=
  fun i o => ∃ b, ∀ a, ∃ c, E i o a → T i o a (b, c)
theorem interCox_mono {B A : Type} (E : I → B × A → I → Prop) (T1 T2 : P4 I (B × A)) (h : ∀ i o a c, E i o a → T1 i o a c → T2 i o a c) :
    ∀ i o, interCox E T1 i o → interCox E T2 i o := by
  intro i o ⟨b, h1⟩
  refine ⟨b, fun a => ?_⟩
  obtain ⟨c, hc⟩ := h1 a
  exact ⟨c, fun ha => h i o a (b, c) ha (hc ha)⟩
/-- the way the program computes them: exists/forall quantifications of  E -> T -/
theorem stdCox_prog (E : I → O → I → Prop) (T : P4 I O) (i : I) (o : O) [Nonempty O] :
    stdCox E T i o ↔ ∀ a, ∃ c, (E i o a → T i o a c) := by
  constructor
  · intro h a
    by_cases ha : E i o a
    · obtain ⟨c, hc⟩ := h a ha; exact ⟨c, fun _ => hc⟩
    · exact ⟨Classical.choice inferInstance, fun x => absurd x ha⟩
  · intro h a ha
    obtain ⟨c, hc⟩ := h a
    exact ⟨c, hc ha⟩
def cox (s : Spec I O) (T : P4 I O) : P2 I O := s.cx T
def fxs (s : Spec I O) (k : Nat) (L : P4 I O) (X : P2 I O) : P4 I O :=
  fun i o a c => s.S i o a c ∧ (L i o a c ∨ (X a c ∧ ¬ s.A k i o a c))
def xs (s : Spec I O) (k : Nat) (L : P4 I O) : P2 I O :=
  fun i o => ∃ P : P2 I O, (∀ i o, P i o → cox s (fxs s k L P) i o) ∧ P i o
def lts (s : Spec I O) (j : Nat) (Z Y : P2 I O) : P4 I O := fun i o a c => (s.G j i o a c ∧ Z a c) ∨ Y a c
def anyX (s : Spec I O) (L : P4 I O) : P2 I O := fun i o => ∃ k, k < s.nA ∧ xs s k L i o
def ys (s : Spec I O) (j : Nat) (Z : P2 I O) : P2 I O :=
  fun i o => ∀ Q : P2 I O, (∀ i o, anyX s (lts s j Z Q) i o → Q i o) → Q i o
def allY (s : Spec I O) (Z : P2 I O) : P2 I O := fun i o => ∀ j, j < s.nG → ys s j Z i o
def zs (s : Spec I O) : P2 I O := fun i o => ∃ P : P2 I O, (∀ i o, P i o → allY s P i o) ∧ P i o
def cap (s : Spec I O) (T : P2 I O) : P2 I O := fun i o => T i o ∧ zs s i o

theorem cox_mono (s : Spec I O) {T1 T2 : P4 I O} (h : ∀ i o a c, s.E i o a → T1 i o a c → T2 i o a c) :
    ∀ i o, cox s T1 i o → cox s T2 i o := by
  exact s.cx_mono T1 T2 h
theorem fxs_mono (s : Spec I O) (k : Nat) {L1 L2 : P4 I O} {X1 X2 : P2 I O} (hL : ∀ i o a c, L1 i o a c → L2 i o a c)
    (hX : ∀ i o, X1 i o → X2 i o) : ∀ i o a c, fxs s k L1 X1 i o a c → fxs s k L2 X2 i o a c := by
  intro i o a c h
  refine ⟨h.1, ?_⟩
  rcases h.2 with h2 | h2
  · exact Or.inl (hL _ _ _ _ h2)
  · exact Or.inr ⟨hX _ _ h2.1, h2.2⟩
theorem X_greatest (s : Spec I O) (k : Nat) (L : P4 I O) (P : P2 I O)
    (h : ∀ i o, P i o → cox s (fxs s k L P) i o) : ∀ i o, P i o → xs s k L i o := fun _ _ hp => ⟨P, h, hp⟩
theorem xs_post (s : Spec I O) (k : Nat) (L : P4 I O) : ∀ i o, xs s k L i o → cox s (fxs s k L (xs s k L)) i o := by
  intro i o h
  obtain ⟨P, hP, hp⟩ := h
  refine cox_mono s ?_ i o (hP i o hp)
  intro i o a c _ h
  exact fxs_mono s k (fun _ _ _ _ x => x) (fun i o hp => ⟨P, hP, hp⟩) i o a c h
theorem xs_unfold (s : Spec I O) (k : Nat) (L : P4 I O) (i : I) (o : O) : xs s k L i o ↔ cox s (fxs s k L (xs s k L)) i o := by
  constructor
  · exact xs_post s k L i o
  · intro h
    refine ⟨cox s (fxs s k L (xs s k L)), ?_, h⟩
    intro i o h
    refine cox_mono s ?_ i o h
    intro i o a c _ h
    exact fxs_mono s k (fun _ _ _ _ x => x) (xs_post s k L) i o a c h
theorem X_mono (s : Spec I O) (k : Nat) {L1 L2 : P4 I O} (h : ∀ i o a c, L1 i o a c → L2 i o a c) :
    ∀ i o, xs s k L1 i o → xs s k L2 i o := by
  intro i o hx
  refine X_greatest s k L2 (xs s k L1) ?_ i o hx
  intro i o hx
  exact cox_mono s (fun i o a c _ h' => fxs_mono s k h (fun _ _ x => x) i o a c h') i o (xs_post s k L1 i o hx)
theorem lts_mono (s : Spec I O) (j : Nat) {Z1 Z2 Y1 Y2 : P2 I O} (hZ : ∀ i o, Z1 i o → Z2 i o) (hY : ∀ i o, Y1 i o → Y2 i o) :
    ∀ i o a c, lts s j Z1 Y1 i o a c → lts s j Z2 Y2 i o a c := by
  intro i o a c h
  rcases h with h | h
  · exact Or.inl ⟨h.1, hZ _ _ h.2⟩
  · exact Or.inr (hY _ _ h)
theorem anyX_mono (s : Spec I O) {L1 L2 : P4 I O} (h : ∀ i o a c, L1 i o a c → L2 i o a c) : ∀ i o, anyX s L1 i o → anyX s L2 i o := by
  intro i o ⟨k, hk, hx⟩
  exact ⟨k, hk, X_mono s k h i o hx⟩
theorem Y_least (s : Spec I O) (j : Nat) (Z Q : P2 I O) (h : ∀ i o, anyX s (lts s j Z Q) i o → Q i o) :
    ∀ i o, ys s j Z i o → Q i o := fun _ _ hy => hy Q h
theorem ys_pre (s : Spec I O) (j : Nat) (Z : P2 I O) : ∀ i o, anyX s (lts s j Z (ys s j Z)) i o → ys s j Z i o := by
  intro i o h Q hQ
  refine hQ i o (anyX_mono s ?_ i o h)
  exact lts_mono s j (fun _ _ x => x) (Y_least s j Z Q hQ)
theorem ys_unfold (s : Spec I O) (j : Nat) (Z : P2 I O) (i : I) (o : O) : ys s j Z i o ↔ anyX s (lts s j Z (ys s j Z)) i o := by
  constructor
  · intro h
    refine h (anyX s (lts s j Z (ys s j Z))) ?_
    intro i o h
    exact anyX_mono s (lts_mono s j (fun _ _ x => x) (ys_pre s j Z)) i o h
  · exact ys_pre s j Z i o
theorem Y_mono (s : Spec I O) (j : Nat) {Z1 Z2 : P2 I O} (h : ∀ i o, Z1 i o → Z2 i o) : ∀ i o, ys s j Z1 i o → ys s j Z2 i o := by
  intro i o hy
  refine Y_least s j Z1 (ys s j Z2) ?_ i o hy
  intro i o hx
  exact ys_pre s j Z2 i o (anyX_mono s (lts_mono s j h (fun _ _ x => x)) i o hx)
theorem Z_greatest (s : Spec I O) (P : P2 I O) (h : ∀ i o, P i o → allY s P i o) : ∀ i o, P i o → zs s i o := fun _ _ hp => ⟨P, h, hp⟩
theorem zs_post (s : Spec I O) : ∀ i o, zs s i o → allY s (zs s) i o := by
  intro i o ⟨P, hP, hp⟩ j hj
  exact Y_mono s j (Z_greatest s P hP) i o (hP i o hp j hj)
theorem zs_unfold (s : Spec I O) (i : I) (o : O) : zs s i o ↔ allY s (zs s) i o := by
  constructor
  · exact zs_post s i o
  · intro h
    refine ⟨allY s (zs s), ?_, h⟩
    intro i o h j hj
    exact Y_mono s j (zs_post s) i o (h j hj)
/-- from every position of an innermost fixed point whose exits lie in winning positions the system wins -/
theorem zs_inner (s : Spec I O) (k j : Nat) (hk : k < s.nA) (T : P2 I O) :
    ∀ i o, xs s k (lts s j (zs s) (cap s T)) i o → zs s i o := by
  intro i o hx
  let X := xs s k (lts s j (zs s) (cap s T))
  refine Z_greatest s (fun i o => zs s i o ∨ X i o) ?_ i o (Or.inr hx)
  intro i o h j' hj'
  have hz : ∀ i o, zs s i o → ys s j' (fun i o => zs s i o ∨ X i o) i o := fun i o hz =>
    Y_mono s j' (fun _ _ x => Or.inl x) i o (zs_post s i o hz j' hj')
  rcases h with h | h
  · exact hz i o h
  · refine ys_pre s j' _ i o ⟨k, hk, ?_⟩
    refine X_greatest s k _ X ?_ i o h
    intro i o hX
    refine cox_mono s ?_ i o (xs_post s k _ i o hX)
    intro i o a c _ h
    refine ⟨h.1, ?_⟩
    rcases h.2 with h2 | h2
    · left; right
      rcases h2 with h3 | h3
      · exact hz a c h3.2
      · exact hz a c h3.2
    · exact Or.inr h2
/-- reaching one goal again and again inside the winning positions is winning -/
theorem ys_zs (s : Spec I O) (j : Nat) : ∀ i o, ys s j (zs s) i o → zs s i o := by
  refine Y_least s j (zs s) (zs s) ?_
  intro i o ⟨k, hk, hx⟩
  refine zs_inner s k j hk (zs s) i o (X_mono s k ?_ i o hx)
  exact lts_mono s j (fun _ _ x => x) (fun _ _ x => ⟨x, x⟩)
end GR1
open GR1
#print axioms stdCox_mono
#print axioms stdCox_prog
#print axioms interCox_mono
#print axioms cox_mono
#print axioms xs_unfold
#print axioms ys_unfold
#print axioms zs_unfold
#print axioms X_greatest
#print axioms X_mono
#print axioms Y_least
#print axioms Y_mono
#print axioms Z_greatest
#print axioms zs_inner
#print axioms ys_zs
