/- Lemmas the contracts in /verif/dv/swiss.py instantiate; checked by Lean on every run of the checks that use them.
   `used` is the set of used positions, numbered 0..N-1 in table order. -/
import Mathlib.Data.ZMod.Basic
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Tactic

namespace Swiss

/-- probe sequence: group number of the n-th probe from home group s in a table of m groups -/
def P (m s : ℕ) : ℕ → ℕ
  | 0 => s
  | n + 1 => (P m s n + (n + 1)) % m

def tri (n : ℕ) : ℕ := ∑ i ∈ Finset.range (n + 1), i

lemma tri_succ (n : ℕ) : tri (n + 1) = tri n + (n + 1) := Finset.sum_range_succ _ _

lemma two_tri (n : ℕ) : 2 * tri n = n * (n + 1) := by
  induction n with
  | zero => simp [tri]
  | succ n ih => rw [tri_succ, mul_add, ih]; ring

lemma P_eq (m s : ℕ) (hs : s < m) (n : ℕ) : P m s n = (s + tri n) % m := by
  induction n with
  | zero => simp [P, tri, Nat.mod_eq_of_lt hs]
  | succ n ih => rw [P, ih, tri_succ, Nat.mod_add_mod, add_assoc]

lemma tri_inj (k a b : ℕ) (ha : a < 2 ^ k) (hab : b < a) (h : tri a % 2 ^ k = tri b % 2 ^ k) : False := by
  have hle : tri b ≤ tri a := by
    have h1 := two_tri a; have h2 := two_tri b; nlinarith
  have h3 : 2 ^ k ∣ tri a - tri b := (Nat.modEq_iff_dvd' hle).mp h.symm
  obtain ⟨c, rfl⟩ : ∃ c, a = b + c := ⟨a - b, by omega⟩
  have h4 : 2 * (tri (b + c) - tri b) = c * (2 * b + c + 1) := by
    have h1 := two_tri (b + c); have h2 := two_tri b
    rw [Nat.mul_sub, h1, h2]
    apply Nat.sub_eq_of_eq_add; ring
  have h5 : 2 ^ (k + 1) ∣ c * (2 * b + c + 1) := by
    rw [← h4, pow_succ, mul_comm (2 ^ k) 2]; exact Nat.mul_dvd_mul_left 2 h3
  rcases Nat.even_or_odd c with hc | hc
  · have ho : Odd (2 * b + c + 1) := by
      obtain ⟨x, rfl⟩ := hc; exact ⟨b + x, by ring⟩
    have : Nat.Coprime (2 ^ (k + 1)) (2 * b + c + 1) := Nat.Coprime.pow_left _ ho.coprime_two_left
    have h6 := this.dvd_of_dvd_mul_right h5
    have := Nat.le_of_dvd (by omega) h6
    have : 2 ^ (k + 1) = 2 * 2 ^ k := by ring
    omega
  · have : Nat.Coprime (2 ^ (k + 1)) c := Nat.Coprime.pow_left _ hc.coprime_two_left
    have h6 := this.dvd_of_dvd_mul_left h5
    have := Nat.le_of_dvd (by omega) h6
    have : 2 ^ (k + 1) = 2 * 2 ^ k := by ring
    omega

/-- triangular probing visits every group within mask steps -/
theorem probe_permutation (k s g : ℕ) (hs : s < 2 ^ k) (hg : g < 2 ^ k) : ∃ q, q ≤ 2 ^ k - 1 ∧ P (2 ^ k) s q = g := by
  have hpos : 0 < 2 ^ k := Nat.two_pow_pos k
  let f : Fin (2 ^ k) → Fin (2 ^ k) := fun q => ⟨P (2 ^ k) s q, by rw [P_eq _ _ hs]; exact Nat.mod_lt _ hpos⟩
  have hinj : Function.Injective f := by
    intro a b hab
    have h1 : (s + tri a) % 2 ^ k = (s + tri b) % 2 ^ k := by
      have := congrArg Fin.val hab
      simpa [f, P_eq _ _ hs] using this
    have h2 : tri a % 2 ^ k = tri b % 2 ^ k := Nat.ModEq.add_left_cancel' s h1
    by_contra hne
    rcases Nat.lt_or_gt_of_ne (fun h => hne (Fin.ext h)) with h | h
    · exact tri_inj k b a b.isLt h h2.symm
    · exact tri_inj k a b a.isLt h h2
  obtain ⟨q, hq⟩ := (Finite.injective_iff_surjective.mp hinj) ⟨g, hg⟩
  exact ⟨q, by have := q.isLt; omega, congrArg Fin.val hq⟩

/-- two different probe numbers up to mask are different groups -/
theorem probe_injective (k s a b : ℕ) (hs : s < 2 ^ k) (ha : a < 2 ^ k) (hb : b < 2 ^ k) (h : P (2 ^ k) s a = P (2 ^ k) s b) : a = b := by
  rw [P_eq _ _ hs, P_eq _ _ hs] at h
  have h2 : tri a % 2 ^ k = tri b % 2 ^ k := Nat.ModEq.add_left_cancel' s h
  rcases Nat.lt_trichotomy a b with h | h | h
  · exact (tri_inj k b a hb h h2.symm).elim
  · exact h
  · exact (tri_inj k a b ha h h2).elim

section counting
variable (used : ℕ → Prop) [DecidablePred used] (N : ℕ)

/-- number of used positions -/
def cnt : ℕ := ((Finset.range N).filter used).card
/-- number of used positions from a on -/
def sfx (a : ℕ) : ℕ := ((Finset.Ico a N).filter used).card
/-- number of used positions before a -/
def pre (a : ℕ) : ℕ := ((Finset.range a).filter used).card

/-- pigeonhole: fewer used positions than positions leave an unused one -/
theorem room (h : cnt used N < N) : ∃ x < N, ¬ used x := by
  by_contra hc
  push Not at hc
  have : (Finset.range N).filter used = Finset.range N := Finset.filter_true_of_mem (fun x hx => hc x (Finset.mem_range.mp hx))
  simp [cnt, this] at h

theorem cnt_ne_zero (x : ℕ) (hx : x < N) (hu : used x) : cnt used N ≠ 0 := by
  have : x ∈ (Finset.range N).filter used := Finset.mem_filter.mpr ⟨Finset.mem_range.mpr hx, hu⟩
  exact Finset.card_ne_zero_of_mem this

theorem cnt_lt (x : ℕ) (hx : x < N) (hu : ¬ used x) : cnt used N < N := by
  have : (Finset.range N).filter used ⊂ Finset.range N := by
    refine (Finset.ssubset_iff_of_subset (Finset.filter_subset _ _)).mpr ⟨x, Finset.mem_range.mpr hx, ?_⟩
    simp [hu]
  simpa [cnt] using Finset.card_lt_card this

theorem cnt_le : cnt used N ≤ N := by simpa [cnt] using Finset.card_filter_le (Finset.range N) used

/-- occupying an unused position adds one, freeing a used one (read backwards) takes one away -/
theorem cnt_insert (used' : ℕ → Prop) [DecidablePred used'] (x : ℕ) (hx : x < N) (hu : ¬ used x)
    (h' : ∀ y, used' y ↔ (used y ∨ y = x)) : cnt used' N = cnt used N + 1 := by
  have : (Finset.range N).filter used' = insert x ((Finset.range N).filter used) := by
    ext y; simp only [Finset.mem_filter, Finset.mem_range, Finset.mem_insert, h']
    constructor
    · rintro ⟨a, b | b⟩ <;> tauto
    · rintro (rfl | ⟨a, b⟩) <;> tauto
  rw [cnt, this, Finset.card_insert_of_notMem (by simp [hu]), cnt]

theorem sfx_zero : sfx used N 0 = cnt used N := by simp [sfx, cnt]
theorem sfx_end (a : ℕ) (h : N ≤ a) : sfx used N a = 0 := by simp [sfx, Finset.Ico_eq_empty_of_le h]
theorem sfx_le (a : ℕ) : sfx used N a ≤ cnt used N := by
  rw [← sfx_zero]; exact Finset.card_le_card (Finset.filter_subset_filter _ (Finset.Ico_subset_Ico_left (Nat.zero_le a)))
theorem sfx_step (a : ℕ) (h : a < N) : sfx used N a = (if used a then 1 else 0) + sfx used N (a + 1) := by
  have : Finset.Ico a N = insert a (Finset.Ico (a + 1) N) := by
    ext y; simp only [Finset.mem_Ico, Finset.mem_insert]; omega
  rw [sfx, this, Finset.filter_insert]
  split_ifs with hu
  · rw [Finset.card_insert_of_notMem (by simp), sfx, add_comm]
  · simp [sfx]
/-- a run of unused positions does not change the count -/
theorem sfx_skip (a b : ℕ) (hab : a ≤ b) (h : ∀ x, a ≤ x → x < b → ¬ used x) : sfx used N a = sfx used N b := by
  unfold sfx
  congr 1
  ext y; simp only [Finset.mem_filter, Finset.mem_Ico]
  constructor
  · rintro ⟨⟨h1, h2⟩, h3⟩
    refine ⟨⟨?_, h2⟩, h3⟩
    by_contra hc
    exact h y h1 (by omega) h3
  · rintro ⟨⟨h1, h2⟩, h3⟩; exact ⟨⟨by omega, h2⟩, h3⟩

theorem pre_zero : pre used 0 = 0 := by simp [pre]
theorem pre_end : pre used N = cnt used N := rfl
/-- a group of W positions adds the number of its used positions -/
theorem pre_group (g W : ℕ) : pre used ((g + 1) * W) = pre used (g * W) + ((Finset.Ico (g * W) ((g + 1) * W)).filter used).card := by
  have h : g * W ≤ (g + 1) * W := Nat.mul_le_mul_right _ (Nat.le_succ g)
  unfold pre
  rw [Finset.range_eq_Ico, Finset.range_eq_Ico, ← Finset.Ico_union_Ico_eq_Ico (Nat.zero_le (g * W)) h, Finset.filter_union]
  apply Finset.card_union_of_disjoint
  exact Finset.disjoint_filter_filter (Finset.Ico_disjoint_Ico_consecutive 0 (g * W) ((g + 1) * W))
theorem pre_le (a : ℕ) (h : a ≤ N) : pre used a ≤ cnt used N :=
  Finset.card_le_card (Finset.filter_subset_filter _ (Finset.range_mono h))
end counting

#print axioms probe_permutation
#print axioms probe_injective
#print axioms room
#print axioms cnt_ne_zero
#print axioms cnt_lt
#print axioms cnt_le
#print axioms cnt_insert
#print axioms sfx_zero
#print axioms sfx_end
#print axioms sfx_le
#print axioms sfx_step
#print axioms sfx_skip
#print axioms pre_zero
#print axioms pre_end
#print axioms pre_group
#print axioms pre_le
end Swiss
