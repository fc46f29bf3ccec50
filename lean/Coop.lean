/-  Cooperative GR(1) games: definitions of the specification symbols used by dv/coop.py, proofs of every axiom and schema
    given to the SMT solvers, and the equivalence of the winning set computed goal by goal with its declarative form
    (`zs_clean`).  No axioms beyond Lean's own are used.  -/
namespace Coop
variable {I O : Type}
abbrev P4 (I O : Type) := I → O → I → O → Prop
abbrev P2 (I O : Type) := I → O → Prop
structure Spec (I O : Type) where
  E : I → O → I → Prop
  S : P4 I O
  A : Nat → P4 I O
  G : Nat → P4 I O
  nA : Nat
  nG : Nat
/-- the environment can move -/
def alive (s : Spec I O) : P2 I O := fun i o => ∃ a, s.E i o a
/-- permitted transitions of both players that do not end in a position without permitted inputs -/
def dd (s : Spec I O) : P4 I O := fun i o a c => s.E i o a ∧ s.S i o a c ∧ alive s a c
def cox (s : Spec I O) (T : P4 I O) : P2 I O := fun i o => ∀ a, s.E i o a → ∃ c, T i o a c
def pre (T : P4 I O) : P2 I O := fun i o => ∃ a c, T i o a c
/-- one cooperative step: into L, or inside X and M while assumption k is violated -/
def stp (s : Spec I O) (k : Nat) (L : P4 I O) (X M : P2 I O) : P4 I O :=
  fun i o a c => dd s i o a c ∧ (L i o a c ∨ ((X a c ∧ M a c) ∧ ¬ s.A k i o a c))
/-- positions with a path of such steps -/
def ms (s : Spec I O) (k : Nat) (L : P4 I O) (X : P2 I O) : P2 I O :=
  fun i o => ∀ Q : P2 I O, (∀ i o, pre (stp s k L X Q) i o → Q i o) → Q i o
def fxs (s : Spec I O) (k : Nat) (L : P4 I O) (X : P2 I O) : P4 I O := stp s k L X (ms s k L X)
def xs (s : Spec I O) (k : Nat) (L : P4 I O) : P2 I O :=
  fun i o => ∃ P : P2 I O, (∀ i o, P i o → cox s (fxs s k L P) i o) ∧ P i o
def lts (s : Spec I O) (j : Nat) (Z Y : P2 I O) : P4 I O := fun i o a c => (s.G j i o a c ∧ Z a c) ∨ Y a c
def anyX (s : Spec I O) (L : P4 I O) : P2 I O := fun i o => ∃ k, k < s.nA ∧ xs s k L i o
def ys (s : Spec I O) (j : Nat) (Z : P2 I O) : P2 I O :=
  fun i o => ∀ Q : P2 I O, (∀ i o, anyX s (lts s j Z Q) i o → Q i o) → Q i o
/-- a step inside N that satisfies assumption k and stays in N, or leads to R -/
def rst (s : Spec I O) (k : Nat) (N R : P2 I O) : P4 I O :=
  fun i o a c => dd s i o a c ∧ N i o ∧ ((s.A k i o a c ∧ N a c) ∨ R a c)
/-- positions with a path inside N to such a transition -/
def rs (s : Spec I O) (k : Nat) (N : P2 I O) : P2 I O :=
  fun i o => ∀ Q : P2 I O, (∀ i o, pre (rst s k N Q) i o → Q i o) → Q i o
def nn (s : Spec I O) : Nat → P2 I O → P2 I O
  | 0, Z => fun i o => ∀ j, j < s.nG → ys s j Z i o
  | k + 1, Z => fun i o => nn s k Z i o ∧ rs s k (nn s k Z) i o
def zs (s : Spec I O) : P2 I O := fun i o => ∃ P : P2 I O, (∀ i o, P i o → nn s s.nA P i o) ∧ P i o

theorem cox_mono (s : Spec I O) {T1 T2 : P4 I O} (h : ∀ i o a c, s.E i o a → T1 i o a c → T2 i o a c) :
    ∀ i o, cox s T1 i o → cox s T2 i o := by
  intro i o h1 a ha
  obtain ⟨c, hc⟩ := h1 a ha
  exact ⟨c, h i o a c ha hc⟩
theorem stp_mono (s : Spec I O) (k : Nat) {L1 L2 : P4 I O} {X1 X2 M1 M2 : P2 I O} (hL : ∀ i o a c, L1 i o a c → L2 i o a c)
    (hX : ∀ i o, X1 i o → X2 i o) (hM : ∀ i o, M1 i o → M2 i o) : ∀ i o a c, stp s k L1 X1 M1 i o a c → stp s k L2 X2 M2 i o a c := by
  intro i o a c ⟨hd, h⟩
  refine ⟨hd, ?_⟩
  rcases h with h | ⟨⟨h1, h2⟩, h3⟩
  · exact Or.inl (hL _ _ _ _ h)
  · exact Or.inr ⟨⟨hX _ _ h1, hM _ _ h2⟩, h3⟩
theorem M_least (s : Spec I O) (k : Nat) (L : P4 I O) (X Q : P2 I O) (h : ∀ i o, pre (stp s k L X Q) i o → Q i o) :
    ∀ i o, ms s k L X i o → Q i o := fun _ _ hm => hm Q h
theorem M_pre (s : Spec I O) (k : Nat) (L : P4 I O) (X : P2 I O) : ∀ i o, pre (stp s k L X (ms s k L X)) i o → ms s k L X i o := by
  intro i o ⟨a, c, h⟩ Q hQ
  exact hQ i o ⟨a, c, stp_mono s k (fun _ _ _ _ x => x) (fun _ _ x => x) (M_least s k L X Q hQ) i o a c h⟩
theorem M_mono (s : Spec I O) (k : Nat) {L1 L2 : P4 I O} {X1 X2 : P2 I O} (hL : ∀ i o a c, L1 i o a c → L2 i o a c)
    (hX : ∀ i o, X1 i o → X2 i o) : ∀ i o, ms s k L1 X1 i o → ms s k L2 X2 i o := by
  refine M_least s k L1 X1 _ ?_
  intro i o ⟨a, c, h⟩
  exact M_pre s k L2 X2 i o ⟨a, c, stp_mono s k hL hX (fun _ _ x => x) i o a c h⟩
theorem fxs_mono (s : Spec I O) (k : Nat) {L1 L2 : P4 I O} {X1 X2 : P2 I O} (hL : ∀ i o a c, L1 i o a c → L2 i o a c)
    (hX : ∀ i o, X1 i o → X2 i o) : ∀ i o a c, fxs s k L1 X1 i o a c → fxs s k L2 X2 i o a c :=
  stp_mono s k hL hX (M_mono s k hL hX)
theorem X_greatest (s : Spec I O) (k : Nat) (L : P4 I O) (P : P2 I O)
    (h : ∀ i o, P i o → cox s (fxs s k L P) i o) : ∀ i o, P i o → xs s k L i o := fun _ _ hp => ⟨P, h, hp⟩
theorem xs_post (s : Spec I O) (k : Nat) (L : P4 I O) : ∀ i o, xs s k L i o → cox s (fxs s k L (xs s k L)) i o := by
  intro i o ⟨P, hP, hp⟩
  exact cox_mono s (fun i o a c _ h => fxs_mono s k (fun _ _ _ _ x => x) (fun i o hp => ⟨P, hP, hp⟩) i o a c h) i o (hP i o hp)
theorem xs_unfold (s : Spec I O) (k : Nat) (L : P4 I O) (i : I) (o : O) : xs s k L i o ↔ cox s (fxs s k L (xs s k L)) i o := by
  constructor
  · exact xs_post s k L i o
  · intro h
    refine ⟨cox s (fxs s k L (xs s k L)), ?_, h⟩
    intro i o h
    exact cox_mono s (fun i o a c _ h => fxs_mono s k (fun _ _ _ _ x => x) (xs_post s k L) i o a c h) i o h
theorem X_mono (s : Spec I O) (k : Nat) {L1 L2 : P4 I O} (h : ∀ i o a c, L1 i o a c → L2 i o a c) :
    ∀ i o, xs s k L1 i o → xs s k L2 i o := by
  refine X_greatest s k L2 (xs s k L1) ?_
  intro i o hx
  exact cox_mono s (fun i o a c _ h' => fxs_mono s k h (fun _ _ x => x) i o a c h') i o (xs_post s k L1 i o hx)
theorem lts_mono (s : Spec I O) (j : Nat) {Z1 Z2 Y1 Y2 : P2 I O} (hZ : ∀ i o, Z1 i o → Z2 i o) (hY : ∀ i o, Y1 i o → Y2 i o) :
    ∀ i o a c, lts s j Z1 Y1 i o a c → lts s j Z2 Y2 i o a c := by
  intro i o a c h
  rcases h with h | h
  · exact Or.inl ⟨h.1, hZ _ _ h.2⟩
  · exact Or.inr (hY _ _ h)
theorem anyX_mono (s : Spec I O) {L1 L2 : P4 I O} (h : ∀ i o a c, L1 i o a c → L2 i o a c) : ∀ i o, anyX s L1 i o → anyX s L2 i o :=
  fun i o ⟨k, hk, hx⟩ => ⟨k, hk, X_mono s k h i o hx⟩
theorem Y_least (s : Spec I O) (j : Nat) (Z Q : P2 I O) (h : ∀ i o, anyX s (lts s j Z Q) i o → Q i o) :
    ∀ i o, ys s j Z i o → Q i o := fun _ _ hy => hy Q h
theorem ys_pre (s : Spec I O) (j : Nat) (Z : P2 I O) : ∀ i o, anyX s (lts s j Z (ys s j Z)) i o → ys s j Z i o := by
  intro i o h Q hQ
  exact hQ i o (anyX_mono s (lts_mono s j (fun _ _ x => x) (Y_least s j Z Q hQ)) i o h)
theorem ys_unfold (s : Spec I O) (j : Nat) (Z : P2 I O) (i : I) (o : O) : ys s j Z i o ↔ anyX s (lts s j Z (ys s j Z)) i o := by
  constructor
  · intro h
    refine h (anyX s (lts s j Z (ys s j Z))) ?_
    intro i o h
    exact anyX_mono s (lts_mono s j (fun _ _ x => x) (ys_pre s j Z)) i o h
  · exact ys_pre s j Z i o
theorem Y_mono (s : Spec I O) (j : Nat) {Z1 Z2 : P2 I O} (h : ∀ i o, Z1 i o → Z2 i o) : ∀ i o, ys s j Z1 i o → ys s j Z2 i o := by
  refine Y_least s j Z1 (ys s j Z2) ?_
  intro i o hx
  exact ys_pre s j Z2 i o (anyX_mono s (lts_mono s j h (fun _ _ x => x)) i o hx)
theorem rst_mono (s : Spec I O) (k : Nat) {N1 N2 R1 R2 : P2 I O} (hN : ∀ i o, N1 i o → N2 i o) (hR : ∀ i o, R1 i o → R2 i o) :
    ∀ i o a c, rst s k N1 R1 i o a c → rst s k N2 R2 i o a c := by
  intro i o a c ⟨h1, h2, h3⟩
  refine ⟨h1, hN _ _ h2, ?_⟩
  rcases h3 with h | h
  · exact Or.inl ⟨h.1, hN _ _ h.2⟩
  · exact Or.inr (hR _ _ h)
theorem R_least (s : Spec I O) (k : Nat) (N Q : P2 I O) (h : ∀ i o, pre (rst s k N Q) i o → Q i o) : ∀ i o, rs s k N i o → Q i o :=
  fun _ _ hr => hr Q h
theorem R_pre (s : Spec I O) (k : Nat) (N : P2 I O) : ∀ i o, pre (rst s k N (rs s k N)) i o → rs s k N i o := by
  intro i o ⟨a, c, h⟩ Q hQ
  exact hQ i o ⟨a, c, rst_mono s k (fun _ _ x => x) (R_least s k N Q hQ) i o a c h⟩
theorem R_mono (s : Spec I O) (k : Nat) {N1 N2 : P2 I O} (h : ∀ i o, N1 i o → N2 i o) : ∀ i o, rs s k N1 i o → rs s k N2 i o := by
  refine R_least s k N1 _ ?_
  intro i o ⟨a, c, h'⟩
  exact R_pre s k N2 i o ⟨a, c, rst_mono s k h (fun _ _ x => x) i o a c h'⟩
theorem N_mono (s : Spec I O) {Z1 Z2 : P2 I O} (h : ∀ i o, Z1 i o → Z2 i o) (k : Nat) : ∀ i o, nn s k Z1 i o → nn s k Z2 i o := by
  induction k with
  | zero => exact fun i o hn j hj => Y_mono s j h i o (hn j hj)
  | succ k ih => exact fun i o hn => ⟨ih i o hn.1, R_mono s k ih i o hn.2⟩
theorem N_anti (s : Spec I O) (Z : P2 I O) (k d : Nat) : ∀ i o, nn s (k + d) Z i o → nn s k Z i o := by
  induction d with
  | zero => exact fun _ _ h => h
  | succ d ih => exact fun i o h => ih i o h.1
theorem N_zero (s : Spec I O) (Z : P2 I O) (i : I) (o : O) : nn s 0 Z i o ↔ ∀ j, j < s.nG → ys s j Z i o := Iff.rfl
theorem N_succ (s : Spec I O) (k : Nat) (Z : P2 I O) (i : I) (o : O) : nn s (k + 1) Z i o ↔ (nn s k Z i o ∧ rs s k (nn s k Z) i o) := Iff.rfl
theorem Z_greatest (s : Spec I O) (P : P2 I O) (h : ∀ i o, P i o → nn s s.nA P i o) : ∀ i o, P i o → zs s i o := fun _ _ hp => ⟨P, h, hp⟩
theorem zs_post (s : Spec I O) : ∀ i o, zs s i o → nn s s.nA (zs s) i o := by
  intro i o ⟨P, hP, hp⟩
  exact N_mono s (Z_greatest s P hP) s.nA i o (hP i o hp)
theorem zs_unfold (s : Spec I O) (i : I) (o : O) : zs s i o ↔ nn s s.nA (zs s) i o := by
  constructor
  · exact zs_post s i o
  · intro h
    exact ⟨nn s s.nA (zs s), fun i o h => N_mono s (zs_post s) s.nA i o h, h⟩

/-- the declarative form: from every position of P each goal can be enforced cooperatively, staying winning, and both
    players together can reach a transition that satisfies assumption k inside P -/
def zc (s : Spec I O) : P2 I O := fun i o => ∃ P : P2 I O,
  (∀ i o, P i o → (∀ j, j < s.nG → ys s j P i o) ∧ ∀ k, k < s.nA → rs s k P i o) ∧ P i o
theorem ys_same (s : Spec I O) (j j' : Nat) (Z : P2 I O) (h : ∀ i o, Z i o → ys s j' Z i o) : ∀ i o, ys s j Z i o → ys s j' Z i o := by
  refine Y_least s j Z _ ?_
  intro i o hx
  refine ys_pre s j' Z i o (anyX_mono s ?_ i o hx)
  intro i o a c hl
  rcases hl with hl | hl
  · exact Or.inr (h a c hl.2)
  · exact Or.inr hl
theorem alive_nn (s : Spec I O) (hG : 0 < s.nG) (Z : P2 I O) (hZ : ∀ i o, Z i o → nn s s.nA Z i o) :
    ∀ k, k ≤ s.nA → ∀ i o, nn s 0 Z i o → alive s i o → nn s k Z i o := by
  have hk : ∀ k, k ≤ s.nA → ∀ i o, Z i o → nn s k Z i o := by
    intro k hk i o hz
    obtain ⟨d, hd⟩ := Nat.le.dest hk
    exact N_anti s Z k d i o (by rw [hd]; exact hZ i o hz)
  intro k
  induction k with
  | zero => exact fun _ i o h _ => h
  | succ k ih =>
    intro hk1 i o h0 hal
    have hk0 : k ≤ s.nA := Nat.le_of_succ_le hk1
    refine ⟨ih hk0 i o h0 hal, ?_⟩
    -- all positions from which some goal can be enforced
    have h00 : ∀ i o, ys s 0 Z i o → nn s 0 Z i o := fun i o hy j hj => ys_same s 0 j Z (fun i o hz => hk 0 (Nat.zero_le _) i o hz j hj) i o hy
    have key : ∀ i o, ys s 0 Z i o → (ys s 0 Z i o ∧ (alive s i o → rs s k (nn s k Z) i o)) := by
      refine Y_least s 0 Z (fun i o => ys s 0 Z i o ∧ (alive s i o → rs s k (nn s k Z) i o)) ?_
      intro i o ⟨n, hn, hx⟩
      have inY : ∀ i o, xs s n (lts s 0 Z (fun i o => ys s 0 Z i o ∧ (alive s i o → rs s k (nn s k Z) i o))) i o → ys s 0 Z i o := by
        intro i o hx
        exact ys_pre s 0 Z i o ⟨n, hn, X_mono s n (lts_mono s 0 (fun _ _ x => x) (fun _ _ x => x.1)) i o hx⟩
      -- the target of a step is in rs
      have tgt : ∀ i o a c (M : P2 I O), (∀ a c, xs s n (lts s 0 Z (fun i o => ys s 0 Z i o ∧ (alive s i o → rs s k (nn s k Z) i o))) a c → M a c → rs s k (nn s k Z) a c) →
          stp s n (lts s 0 Z (fun i o => ys s 0 Z i o ∧ (alive s i o → rs s k (nn s k Z) i o))) (xs s n (lts s 0 Z (fun i o => ys s 0 Z i o ∧ (alive s i o → rs s k (nn s k Z) i o)))) M i o a c →
          rs s k (nn s k Z) a c := by
        intro i o a c M hM ⟨hd, h⟩
        rcases h with (h | h) | h
        · exact (hk (k + 1) hk1 a c h.2).2
        · exact h.2 hd.2.2
        · exact hM a c h.1.1 h.1.2
      have src : ∀ i o a c, xs s n (lts s 0 Z (fun i o => ys s 0 Z i o ∧ (alive s i o → rs s k (nn s k Z) i o))) i o → dd s i o a c →
          rs s k (nn s k Z) a c → rs s k (nn s k Z) i o := by
        intro i o a c hx hd hr
        exact R_pre s k (nn s k Z) i o ⟨a, c, hd, ih hk0 i o (h00 i o (inY i o hx)) ⟨a, hd.1⟩, Or.inr hr⟩
      have inM : ∀ i o, ms s n (lts s 0 Z (fun i o => ys s 0 Z i o ∧ (alive s i o → rs s k (nn s k Z) i o))) (xs s n (lts s 0 Z (fun i o => ys s 0 Z i o ∧ (alive s i o → rs s k (nn s k Z) i o)))) i o →
          xs s n (lts s 0 Z (fun i o => ys s 0 Z i o ∧ (alive s i o → rs s k (nn s k Z) i o))) i o → rs s k (nn s k Z) i o := by
        refine M_least s n _ _ (fun i o => xs s n (lts s 0 Z (fun i o => ys s 0 Z i o ∧ (alive s i o → rs s k (nn s k Z) i o))) i o → rs s k (nn s k Z) i o) ?_
        intro i o ⟨a, c, h⟩ hx
        exact src i o a c hx h.1 (tgt i o a c _ (fun a c hx hm => hm hx) h)
      refine ⟨inY i o hx, ?_⟩
      intro ⟨a, ha⟩
      obtain ⟨c, hc⟩ := xs_post s n _ i o hx a ha
      exact src i o a c hx hc.1 (tgt i o a c _ (fun a c hx hm => inM a c hm hx) hc)
    exact (key i o (h0 0 hG)).2 hal
/-- the set computed goal by goal is the declarative one -/
theorem zs_clean (s : Spec I O) (hG : 0 < s.nG) (i : I) (o : O) : zs s i o ↔ zc s i o := by
  constructor
  · intro hz
    refine ⟨zs s, ?_, hz⟩
    intro i o hz
    have hn := zs_post s i o hz
    have h0 : ∀ i o, nn s s.nA (zs s) i o → nn s 0 (zs s) i o := fun i o h => N_anti s (zs s) 0 s.nA i o (by rw [Nat.zero_add]; exact h)
    refine ⟨fun j hj => h0 i o hn j hj, ?_⟩
    intro k hk
    have inZ : ∀ i o, nn s k (zs s) i o → alive s i o → zs s i o := by
      intro i o h ha
      exact (zs_unfold s i o).2 (alive_nn s hG (zs s) (zs_post s) s.nA (Nat.le_refl _) i o (N_anti s (zs s) 0 k i o (by rw [Nat.zero_add]; exact h)) ha)
    obtain ⟨d, hd⟩ := Nat.le.dest hk
    have hr : rs s k (nn s k (zs s)) i o := (N_anti s (zs s) (k + 1) d i o (by rw [hd]; exact hn)).2
    refine R_least s k (nn s k (zs s)) (rs s k (zs s)) ?_ i o hr
    intro i o ⟨a, c, hdd, hN, h⟩
    refine R_pre s k (zs s) i o ⟨a, c, hdd, inZ i o hN ⟨a, hdd.1⟩, ?_⟩
    rcases h with h | h
    · exact Or.inl ⟨h.1, inZ a c h.2 hdd.2.2⟩
    · exact Or.inr h
  · intro ⟨P, hP, hp⟩
    refine ⟨P, ?_, hp⟩
    have all : ∀ k, k ≤ s.nA → ∀ i o, P i o → nn s k P i o := by
      intro k
      induction k with
      | zero => exact fun _ i o hp j hj => (hP i o hp).1 j hj
      | succ k ih => exact fun hk i o hp => ⟨ih (Nat.le_of_succ_le hk) i o hp, R_mono s k (ih (Nat.le_of_succ_le hk)) i o ((hP i o hp).2 k hk)⟩
    exact all s.nA (Nat.le_refl _)
end Coop
open Coop
#print axioms cox_mono
#print axioms M_least
#print axioms M_pre
#print axioms M_mono
#print axioms fxs_mono
#print axioms xs_unfold
#print axioms X_greatest
#print axioms X_mono
#print axioms ys_unfold
#print axioms Y_least
#print axioms Y_mono
#print axioms R_least
#print axioms R_pre
#print axioms R_mono
#print axioms N_zero
#print axioms N_succ
#print axioms N_mono
#print axioms N_anti
#print axioms Z_greatest
#print axioms zs_unfold
#print axioms zs_clean
