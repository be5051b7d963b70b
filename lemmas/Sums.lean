import Mathlib

/-!
Facts on finite sums, counts, positions and strides that the verifier `dv` uses without proof.
`S f n` is the sum of `f k` over `0 <= k < n`; a length that is negative counts as zero.
A count is a sum of zeros and ones; `∃`/`∀` over `0 <= k < n` are written out.
Sorts: integers and reals (any linearly ordered ring here).
-/
open Finset
set_option linter.unusedSectionVars false
set_option linter.unusedVariables false

namespace DV
variable {α : Type*} [CommRing α] [LinearOrder α] [IsStrictOrderedRing α]

def S {β : Type*} [AddCommMonoid β] (f : ℤ → β) (n : ℤ) : β := ∑ k ∈ Finset.range n.toNat, f k

/-- `dv.prove.sum_univ`: no terms -/
theorem empty (f : ℤ → α) {n : ℤ} (h : n ≤ 0) : S f n = 0 := by
  simp [S, Int.toNat_of_nonpos h]

/-- `dv.prove.sum_ground`, `sum_pair`: one term more -/
theorem step (f : ℤ → α) {n : ℤ} (h : 0 ≤ n) : S f (n + 1) = S f n + f n := by
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have : ((m : ℤ) + 1).toNat = m + 1 := by omega
  simp [S, this, Finset.sum_range_succ]

/-- induction over the length -/
theorem ind {P : ℤ → Prop} (h0 : P 0) (hs : ∀ n, 0 ≤ n → P n → P (n + 1)) : ∀ n, 0 ≤ n → P n := by
  intro n hn
  exact Int.leInduction (m := 0) (motive := fun n _ => P n) h0 (fun n h => hs n h) n hn

theorem zero (f : ℤ → α) : S f 0 = 0 := empty f le_rfl

/-- `sum_univ`: terms that are not negative -/
theorem nonneg (f : ℤ → α) (h : ∀ k, 0 ≤ f k) (n : ℤ) : 0 ≤ S f n := Finset.sum_nonneg fun k _ => h k

/-- `sum_pair`: same terms, one sum longer -/
theorem mono (f : ℤ → α) {n m : ℤ} (h : ∀ k, 0 ≤ f k) (hnm : n ≤ m) : S f n ≤ S f m :=
  Finset.sum_le_sum_of_subset_of_nonneg (Finset.range_mono (Int.toNat_le_toNat hnm)) fun k _ _ => h k

/-- `sum_pair`: terms between, `spec.term_le` -/
theorem between (f : ℤ → α) {n m : ℤ} (h : ∀ k, 0 ≤ f k) (hn : 0 ≤ n) (hnm : n < m) : S f n + f n ≤ S f m := by
  rw [← step f hn]; exact mono f h (by omega)

/-- `spec.term_le`, `sum_ground` -/
theorem term_le (f : ℤ → α) {n k : ℤ} (h : ∀ q, 0 ≤ q → q < n → 0 ≤ f q) (hk : 0 ≤ k) (hkn : k < n) : f k ≤ S f n := by
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hk
  refine Finset.single_le_sum (f := fun k : ℕ => f k) (s := Finset.range n.toNat) (fun i hi => ?_) (Finset.mem_range.2 (by omega))
  exact h i (by omega) (by have := Finset.mem_range.1 hi; omega)

/-- `sum_ground`, `spec.nonzero`: a sum that is not zero has a term that is not zero -/
theorem nonzero (f : ℤ → α) (n : ℤ) : S f n = 0 ∨ ∃ k, 0 ≤ k ∧ k < n ∧ f k ≠ 0 := by
  by_contra! h
  refine h.1 (Finset.sum_eq_zero fun k hk => h.2 k (by omega) (by have := Finset.mem_range.1 hk; omega))

theorem positive (f : ℤ → α) {n : ℤ} (h : ∀ k, 0 ≤ f k) (hp : 0 < S f n) : ∃ k, 0 ≤ k ∧ k < n ∧ 0 < f k := by
  rcases nonzero f n with h0 | ⟨k, a, b, c⟩
  · exact absurd h0 hp.ne'
  · exact ⟨k, a, b, lt_of_le_of_ne (h k) (Ne.symm c)⟩

/-- `sum_pair`: comparison of two sums of the same length, with a witness otherwise -/
theorem le_or (f g : ℤ → α) (n : ℤ) : S f n ≤ S g n ∨ ∃ k, 0 ≤ k ∧ k < n ∧ g k < f k := by
  by_contra! h
  have : S f n ≤ S g n := Finset.sum_le_sum fun k hk => h.2 (k : ℤ) (by omega) (by have := Finset.mem_range.1 hk; omega)
  exact absurd this (not_le.2 h.1)

/-- `spec.add_sums` -/
theorem add_sums (f g h : ℤ → α) (n : ℤ) : S f n = S g n + S h n ∨ ∃ k, 0 ≤ k ∧ k < n ∧ f k ≠ g k + h k := by
  by_contra! H
  refine H.1 ?_
  unfold S
  rw [← Finset.sum_add_distrib]
  exact Finset.sum_congr rfl fun k hk => H.2 k (by omega) (by have := Finset.mem_range.1 hk; omega)

/-- `spec.scale_le` -/
theorem scale_le (f g : ℤ → α) (v : α) (n : ℤ) : S f n ≤ v * S g n ∨ ∃ k, 0 ≤ k ∧ k < n ∧ v * g k < f k := by
  have : v * S g n = S (fun k => v * g k) n := by simp [S, Finset.mul_sum]
  rw [this]; exact le_or f _ n

/-- sums are linear: constants and factors are taken out of sums when terms are normalised -/
theorem scale (f : ℤ → α) (v : α) (n : ℤ) : S (fun k => v * f k) n = v * S f n := by simp [S, Finset.mul_sum]
theorem add (f g : ℤ → α) (n : ℤ) : S (fun k => f k + g k) n = S f n + S g n := by simp [S, Finset.sum_add_distrib]
theorem neg (f : ℤ → α) (n : ℤ) : S (fun k => - f k) n = - S f n := by simp [S]
theorem const (c : α) {n : ℤ} (h : 0 ≤ n) : S (fun _ => c) n = n * c := by
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h
  simp [S]
theorem cast (f : ℤ → ℤ) (n : ℤ) : ((S f n : ℤ) : ℝ) = S (fun k => (f k : ℝ)) n := by simp [S]

/-- `spec.one_term` -/
theorem one_term (f : ℤ → α) {n k : ℤ} (hk : 0 ≤ k) (hkn : k < n) : S (fun q => if q = k then f q else 0) n = f k := by
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hk
  unfold S
  rw [Finset.sum_eq_single a]
  · simp
  · intro b _ hb; simp [hb]
  · intro h; exact absurd (Finset.mem_range.2 (by omega)) h

/-- `spec.split_sum` -/
theorem split_sum (f : ℤ → α) {m l : ℤ} (hm : 0 ≤ m) (hl : 0 ≤ l) : S f (m + l) = S f m + S (fun k => f (m + k)) l := by
  refine ind (P := fun l => S f (m + l) = S f m + S (fun k => f (m + k)) l) ?_ ?_ l hl
  · simp [zero]
  · intro l hl ih
    show S f (m + (l + 1)) = _
    rw [← add_assoc, step f (by omega), ih, step _ hl, add_assoc]

/-- `spec.cut_sum` -/
theorem cut_sum (f : ℤ → α) {n m : ℤ} (hm : 0 ≤ m) (hmn : m ≤ n) : S (fun k => if k < m then f k else 0) n = S f m := by
  obtain ⟨l, rfl⟩ : ∃ l, n = m + l := ⟨n - m, by ring⟩
  rw [split_sum _ hm (by omega)]
  have h1 : S (fun k => if k < m then f k else 0) m = S f m :=
    Finset.sum_congr rfl fun k hk => if_pos (by have := Finset.mem_range.1 hk; omega)
  have h2 : S (fun k => if m + k < m then f (m + k) else 0) l = 0 :=
    Finset.sum_eq_zero fun k _ => if_neg (by omega)
  rw [h1, h2, add_zero]

/-- `spec.perm_sum`; `inv` is the inverse that accompanies every permutation of the verifier -/
theorem perm_sum (f : ℤ → α) (sig inv : ℤ → ℤ) (n : ℤ) (h1 : ∀ k, 0 ≤ k → k < n → 0 ≤ sig k ∧ sig k < n ∧ inv (sig k) = k)
    (h2 : ∀ k, 0 ≤ k → k < n → 0 ≤ inv k ∧ inv k < n ∧ sig (inv k) = k) : S (fun k => f (sig k)) n = S f n := by
  unfold S
  refine Finset.sum_bij' (fun k _ => (sig k).toNat) (fun k _ => (inv k).toNat) ?_ ?_ ?_ ?_ ?_ <;> intro k hk <;>
    have hk' := Finset.mem_range.1 hk
  · have := h1 k (by omega) (by omega); simp; omega
  · have := h2 k (by omega) (by omega); simp; omega
  · have := h1 k (by omega) (by omega)
    rw [Int.toNat_of_nonneg this.1, this.2.2]; simp
  · have := h2 k (by omega) (by omega)
    rw [Int.toNat_of_nonneg this.1, this.2.2]; simp
  · have := h1 k (by omega) (by omega)
    rw [Int.toNat_of_nonneg this.1]

/-- double sums: sum over a rectangle by rows or by columns -/
theorem swap (f : ℤ → ℤ → α) (n m : ℤ) : S (fun i => S (fun j => f i j) m) n = S (fun j => S (fun i => f i j) n) m :=
  Finset.sum_comm

/-! counts: sums of zeros and ones -/

theorem count_le (f : ℤ → ℤ) (h : ∀ k, f k = 0 ∨ f k = 1) : ∀ n : ℤ, 0 ≤ n → S f n ≤ n := by
  refine ind (by simp [zero]) ?_
  intro n hn ih
  rw [step f hn]; rcases h n with h | h <;> omega

theorem count_short (f : ℤ → ℤ) {n : ℤ} (h : ∀ k, f k = 0 ∨ f k = 1) (hn : 0 ≤ n) (hs : S f n < n) : ∃ k, 0 ≤ k ∧ k < n ∧ f k = 0 := by
  by_contra! H
  have : S f n = S (fun _ => (1 : ℤ)) n := Finset.sum_congr rfl fun k hk =>
    (h k).resolve_left (H k (by omega) (by have := Finset.mem_range.1 hk; omega))
  rw [this, const 1 hn] at hs; simp at hs

theorem count_miss (f : ℤ → ℤ) {n k : ℤ} (h : ∀ k, f k = 0 ∨ f k = 1) (hk : 0 ≤ k) (hkn : k < n) (h0 : f k = 0) : S f n ≤ n - 1 := by
  have h1 : S f n + S (fun q => 1 - f q) n = n := by
    have := add f (fun q => 1 - f q) n
    rw [← this]
    have h2 : S (fun k => f k + (1 - f k)) n = S (fun _ => (1 : ℤ)) n := Finset.sum_congr rfl fun k _ => by ring
    rw [h2, const 1 (by omega)]; simp
  have := term_le (fun q => 1 - f q) (fun q _ _ => by rcases h q with h | h <;> rw [h] <;> norm_num) hk hkn
  simp only [h0] at this; omega

/-- `parity`: how many indices have the same parity -/
theorem count_parity (m : ℤ) (hm : m = 0 ∨ m = 1) : ∀ n : ℤ, 0 ≤ n → S (fun k => if k % 2 = m then (1 : ℤ) else 0) n = (n + 1 - m) / 2 := by
  apply ind
  · rw [zero]; omega
  · intro n hn ih
    rw [step _ hn, ih]
    split <;> omega

/-- `sum_pair`: two counts are complementary unless some index has none or both -/
theorem complement (f g : ℤ → ℤ) {n : ℤ} (hn : 0 ≤ n) : S f n + S g n = n ∨ ∃ k, 0 ≤ k ∧ k < n ∧ f k + g k ≠ 1 := by
  rcases add_sums (fun _ => (1 : ℤ)) f g n with h | ⟨k, a, b, c⟩
  · left; rw [← h, const 1 hn]; simp
  · exact Or.inr ⟨k, a, b, fun h => c h.symm⟩

/-- `sum_pair`: growth of a count is bounded by the growth of the length -/
theorem count_growth (f : ℤ → ℤ) (h : ∀ k, f k = 0 ∨ f k = 1) {n m : ℤ} (hn : 0 ≤ n) (hnm : n ≤ m) : S f m - S f n ≤ m - n := by
  obtain ⟨l, rfl⟩ : ∃ l, m = n + l := ⟨m - n, by ring⟩
  rw [split_sum f hn (by omega)]
  have := count_le (fun k => f (n + k)) (fun k => h _) l (by omega)
  omega

/-! positions of the ones of a 0/1 sequence: `dv.prove.pos_univ`, `spec.masked_sums` -/

/-- the p-th position exists: `pos p` is the least index below which p+1 ones are seen -/
theorem pos_exists (c : ℤ → ℤ) (h : ∀ k, c k = 0 ∨ c k = 1) : ∀ n : ℤ, 0 ≤ n → ∀ p, 0 ≤ p → p < S c n →
    ∃ k, 0 ≤ k ∧ k < n ∧ c k = 1 ∧ S c k = p := by
  refine ind ?_ ?_
  · intro p h0 h1; rw [zero] at h1; omega
  · intro n hn ih p h0 h1
    by_cases hp : p < S c n
    · obtain ⟨k, a, b, d⟩ := ih p h0 hp; exact ⟨k, a, by omega, d⟩
    · rw [step c hn] at h1
      rcases h n with hc | hc
      · omega
      · exact ⟨n, hn, by omega, hc, by omega⟩

theorem pos_unique (c : ℤ → ℤ) (h : ∀ k, c k = 0 ∨ c k = 1) {i j : ℤ} (hi : 0 ≤ i) (hj : 0 ≤ j) (ci : c i = 1) (cj : c j = 1)
    (e : S c i = S c j) : i = j := by
  have nn : ∀ k, 0 ≤ c k := fun k => by rcases h k with h | h <;> omega
  rcases lt_trichotomy i j with l | l | l
  · have := between c nn hi l; omega
  · exact l
  · have := between c nn hj l; omega

theorem pos_lt (c : ℤ → ℤ) (h : ∀ k, c k = 0 ∨ c k = 1) {i j : ℤ} (hj : 0 ≤ j) (cj : c j = 1) (e : S c i < S c j) : i < j := by
  by_contra hh
  have := mono c (fun k => by rcases h k with h | h <;> omega) (not_lt.1 hh)
  omega

/-- a function as the verifier describes it sums the selected terms -/
theorem masked_sum (c : ℤ → ℤ) (f : ℤ → α) (pos : ℤ → ℤ) (h : ∀ k, c k = 0 ∨ c k = 1) : ∀ n : ℤ, 0 ≤ n →
    (∀ p, 0 ≤ p → p < S c n → 0 ≤ pos p ∧ pos p < n ∧ c (pos p) = 1 ∧ S c (pos p) = p) →
    S (fun p => f (pos p)) (S c n) = S (fun j => if c j = 1 then f j else 0) n := by
  refine ind ?_ ?_
  · intro _; simp [zero]
  · intro n hn ih hp
    have nn : ∀ k, 0 ≤ c k := fun k => by rcases h k with h | h <;> omega
    have hS := step c hn
    have h0 := nonneg c nn n
    have ih' : S (fun p => f (pos p)) (S c n) = S (fun j => if c j = 1 then f j else 0) n := by
      refine ih fun p a b => ?_
      have q := hp p a (by have := nn n; omega)
      have l := pos_lt c h (i := pos p) (j := n) hn
      refine ⟨q.1, ?_, q.2.2⟩
      by_contra hh
      have := mono c nn (not_lt.1 hh)
      omega
    rw [hS, step _ hn]
    rcases h n with hc | hc
    · simp [hc, ih']
    · rw [hc, step _ h0, ih']
      have q := hp (S c n) h0 (by omega)
      have : pos (S c n) = n := pos_unique c h q.1 hn q.2.2.1 hc q.2.2.2
      simp [this, hc]

/-! lists without repetition -/

/-- membership sum: over a list without repetition, the sum of `f` over the list is the sum over the range of the
terms that occur in it -/
theorem listed_sum (l : ℤ → ℤ) (f : ℤ → α) (mem : ℤ → Prop) [DecidablePred mem] (N : ℤ) : ∀ n : ℤ, 0 ≤ n →
    ∀ (_ : ∀ i, 0 ≤ i → i < n → 0 ≤ l i ∧ l i < N) (_ : ∀ i j, 0 ≤ i → i < j → j < n → l i ≠ l j)
      (_ : ∀ x, 0 ≤ x → x < N → (mem x ↔ ∃ i, 0 ≤ i ∧ i < n ∧ l i = x)),
    S (fun i => f (l i)) n = S (fun x => if mem x then f x else 0) N := by
  intro n hn hr hd hm
  unfold S
  rw [← Finset.sum_filter]
  refine Finset.sum_bij (fun i _ => (l i).toNat) ?_ ?_ ?_ ?_
  · intro i hi
    have hi' := Finset.mem_range.1 hi
    have := hr i (by omega) (by omega)
    refine Finset.mem_filter.2 ⟨Finset.mem_range.2 (by omega), ?_⟩
    rw [Int.toNat_of_nonneg this.1]
    exact (hm _ this.1 this.2).2 ⟨i, by omega, by omega, rfl⟩
  · intro i hi j hj e
    have hi' := Finset.mem_range.1 hi
    have hj' := Finset.mem_range.1 hj
    have a := hr i (by omega) (by omega)
    have b := hr j (by omega) (by omega)
    have e' : l i = l j := by omega
    rcases lt_trichotomy i j with q | q | q
    · exact absurd e' (hd i j (by omega) (by omega) (by omega))
    · exact q
    · exact absurd e'.symm (hd j i (by omega) (by omega) (by omega))
  · intro x hx
    have hx' := Finset.mem_filter.1 hx
    have := Finset.mem_range.1 hx'.1
    obtain ⟨i, a, b, e⟩ := (hm x (by omega) (by omega)).1 hx'.2
    exact ⟨i.toNat, Finset.mem_range.2 (by omega), by rw [Int.toNat_of_nonneg a, e]; simp⟩
  · intro i hi
    have hi' := Finset.mem_range.1 hi
    have := hr i (by omega) (by omega)
    rw [Int.toNat_of_nonneg this.1]

/-! a partition given by a bijection between places and scenarios (`contracts/refining.py`): the sizes add up to
the number of scenarios -/
theorem sizes (K N : ℤ) (ln : ℤ → ℤ) (el : ℤ → ℤ → ℤ) (sub place : ℤ → ℤ) (hN : 0 ≤ N)
    (h0 : ∀ c, 0 ≤ c → c < K → 0 ≤ ln c)
    (h1 : ∀ c p, 0 ≤ c → c < K → 0 ≤ p → p < ln c → 0 ≤ el c p ∧ el c p < N ∧ sub (el c p) = c ∧ place (el c p) = p)
    (h2 : ∀ s, 0 ≤ s → s < N → 0 ≤ sub s ∧ sub s < K ∧ 0 ≤ place s ∧ place s < ln (sub s) ∧ el (sub s) (place s) = s) :
    S ln K = N := by
  have e : (((Finset.range K.toNat).sigma fun c : ℕ => Finset.range (ln c).toNat).card : ℤ) = S ln K := by
    rw [Finset.card_sigma]
    unfold S
    push_cast
    refine Finset.sum_congr rfl fun c hc => ?_
    have := h0 c (by omega) (by have := Finset.mem_range.1 hc; omega)
    simp; omega
  have b : ((Finset.range K.toNat).sigma fun c : ℕ => Finset.range (ln c).toNat).card = (Finset.range N.toNat).card := by
    refine Finset.card_bij' (fun (x : (_ : ℕ) × ℕ) _ => (el x.1 x.2).toNat) (fun s _ => (⟨(sub s).toNat, (place s).toNat⟩ : (_ : ℕ) × ℕ)) ?_ ?_ ?_ ?_
    · intro x hx
      have hx := Finset.mem_sigma.1 hx
      have a := Finset.mem_range.1 hx.1; have b := Finset.mem_range.1 hx.2
      have := h1 x.1 x.2 (by omega) (by omega) (by omega) (by omega)
      exact Finset.mem_range.2 (by omega)
    · intro s hs
      have hs := Finset.mem_range.1 hs
      have := h2 s (by omega) (by omega)
      refine Finset.mem_sigma.2 ⟨Finset.mem_range.2 (show (sub s).toNat < K.toNat by omega), Finset.mem_range.2 ?_⟩
      simp only [Int.toNat_of_nonneg this.1]; omega
    · intro x hx
      have hx := Finset.mem_sigma.1 hx
      have a := Finset.mem_range.1 hx.1; have b := Finset.mem_range.1 hx.2
      have := h1 x.1 x.2 (by omega) (by omega) (by omega) (by omega)
      simp only [Int.toNat_of_nonneg this.1, this.2.2.1, this.2.2.2]
      simp
    · intro s hs
      have hs := Finset.mem_range.1 hs
      have := h2 s (by omega) (by omega)
      simp only [Int.toNat_of_nonneg this.1, Int.toNat_of_nonneg this.2.2.1, this.2.2.2.2]
      simp
  rw [← e, b]; simp [hN]

/-! strides: dealing positions into n piles (`dv.lib.deal_axioms`) -/
def pos (i q n : ℤ) : ℤ := i + q * n
def row (k n : ℤ) : ℤ := k % n
def idx (k n : ℤ) : ℤ := k / n
/-- number of q >= 0 with i + q * n < h -/
def len (i h n : ℤ) : ℤ := max 0 ((h - i + n - 1) / n)

theorem deal_pos {i q n : ℤ} (h0 : 0 ≤ i) (h1 : i < n) (hq : 0 ≤ q) : 0 ≤ pos i q n ∧ row (pos i q n) n = i ∧ idx (pos i q n) n = q := by
  have hn : n ≠ 0 := by omega
  refine ⟨add_nonneg h0 (mul_nonneg hq (by omega)), ?_, ?_⟩
  · simp [row, pos, Int.emod_eq_of_lt h0 h1]
  · simp [idx, pos, Int.add_mul_ediv_right _ _ hn, Int.ediv_eq_zero_of_lt h0 h1]

theorem deal_row {k n : ℤ} (hn : 1 ≤ n) (hk : 0 ≤ k) : 0 ≤ row k n ∧ row k n < n ∧ 0 ≤ idx k n ∧ pos (row k n) (idx k n) n = k := by
  refine ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega), Int.ediv_nonneg hk (by omega), ?_⟩
  simp only [pos, row, idx]
  have := Int.emod_add_mul_ediv k n
  linarith [mul_comm n (k / n)]

theorem deal_len {i h n : ℤ} (hn : 1 ≤ n) : 0 ≤ len i h n ∧ (h ≤ i → len i h n = 0) ∧
    (i < h → (len i h n - 1) * n < h - i ∧ h - i ≤ len i h n * n ∧ 1 ≤ len i h n) := by
  have e := Int.emod_add_mul_ediv (h - i + n - 1) n
  have r0 := Int.emod_nonneg (h - i + n - 1) (show n ≠ 0 by omega)
  have r1 := Int.emod_lt_of_pos (h - i + n - 1) (show 0 < n by omega)
  set d := (h - i + n - 1) / n with hd
  refine ⟨le_max_left _ _, fun hh => ?_, fun hh => ?_⟩
  · have : d ≤ 0 := by
      by_contra hc
      have : n * 1 ≤ n * d := mul_le_mul_of_nonneg_left (by omega) (by omega)
      omega
    simp [len, ← hd, this]
  · have : 1 ≤ d := by
      by_contra hc
      have : n * d ≤ n * 0 := mul_le_mul_of_nonneg_left (by omega) (by omega)
      omega
    have l : len i h n = d := by simp only [len, ← hd]; omega
    rw [l]
    refine ⟨?_, ?_, this⟩ <;> nlinarith

theorem deal_lt {i q h n : ℤ} (hn : 1 ≤ n) (hq : 0 ≤ q) : q < len i h n ↔ pos i q n < h := by
  have := deal_len (i := i) (h := h) hn
  rcases le_or_gt h i with hh | hh
  · rw [this.2.1 hh]
    have : 0 ≤ q * n := mul_nonneg hq (by omega)
    simp only [pos]; constructor <;> intro <;> omega
  · obtain ⟨a, b, c⟩ := this.2.2 hh
    simp only [pos]
    constructor
    · intro l
      have : q * n ≤ (len i h n - 1) * n := mul_le_mul_of_nonneg_right (by omega) (by omega)
      omega
    · intro l
      by_contra hc
      have : len i h n * n ≤ q * n := mul_le_mul_of_nonneg_right (by omega) (by omega)
      omega

/-- the piles together hold every position once -/
theorem deal_total {h n : ℤ} (hn : 1 ≤ n) (hh : 0 ≤ h) : S (fun i => len i h n) n = h := by
  refine sizes n h (fun i => len i h n) (fun i q => pos i q n) (fun k => row k n) (fun k => idx k n) hh ?_ ?_ ?_
  · intro c _ _; exact (deal_len hn).1
  · intro c p c0 c1 p0 p1
    have a := deal_pos c0 c1 p0
    exact ⟨a.1, (deal_lt hn p0).1 p1, a.2.1, a.2.2⟩
  · intro s s0 s1
    have a := deal_row hn s0
    refine ⟨a.1, a.2.1, a.2.2.1, ?_, a.2.2.2⟩
    exact (deal_lt hn a.2.2.1).2 (by rw [a.2.2.2]; exact s1)

/-! extrema: `dv.prove.mm_univ` -/
/-- the first index at which a finite maximum is attained -/
theorem maximum (f : ℤ → α) (c : ℤ → Prop) [DecidablePred c] {n : ℤ} (h : ∃ k, 0 ≤ k ∧ k < n ∧ c k) :
    ∃ w, 0 ≤ w ∧ w < n ∧ c w ∧ ∀ k, 0 ≤ k → k < n → c k → f k ≤ f w ∧ (k < w → f k < f w) := by
  have key : ∀ m : ℤ, 0 ≤ m → (∃ k, 0 ≤ k ∧ k < m ∧ c k) →
      ∃ w, 0 ≤ w ∧ w < m ∧ c w ∧ ∀ k, 0 ≤ k → k < m → c k → f k ≤ f w ∧ (k < w → f k < f w) := by
    refine ind ?_ ?_
    · rintro ⟨k, a, b, _⟩; omega
    · intro m hm ih _
      by_cases e : ∃ k, 0 ≤ k ∧ k < m ∧ c k
      · obtain ⟨w, w0, w1, cw, hw⟩ := ih e
        by_cases g : c m ∧ f w < f m
        · refine ⟨m, hm, by omega, g.1, fun k a b ck => ?_⟩
          rcases eq_or_lt_of_le (show k ≤ m by omega) with rfl | l
          · exact ⟨le_rfl, fun q => absurd q (lt_irrefl _)⟩
          · have := (hw k a l ck).1; exact ⟨(lt_of_le_of_lt this g.2).le, fun _ => lt_of_le_of_lt this g.2⟩
        · refine ⟨w, w0, by omega, cw, fun k a b ck => ?_⟩
          rcases eq_or_lt_of_le (show k ≤ m by omega) with rfl | l
          · refine ⟨?_, fun q => by omega⟩
            by_contra hc; exact g ⟨ck, not_le.1 hc⟩
          · exact hw k a l ck
      · rename_i H
        obtain ⟨k, a, b, ck⟩ := H
        have km : k = m := by
          by_contra hc; exact e ⟨k, a, by omega, ck⟩
        subst km
        refine ⟨k, hm, by omega, ck, fun j a b cj => ?_⟩
        have : j = k := by
          by_contra hc; exact e ⟨j, a, by omega, cj⟩
        subst this
        exact ⟨le_rfl, fun q => absurd q (lt_irrefl _)⟩
  obtain ⟨k, a, b, ck⟩ := h
  exact key n (by omega) ⟨k, a, b, ck⟩

/-! rows of an array -/

theorem rowmajor_range {a b A B : ℤ} (a0 : 0 ≤ a) (ha : a < A) (b0 : 0 ≤ b) (hb : b < B) : 0 ≤ a * B + b ∧ a * B + b < A * B := by
  constructor
  · nlinarith
  · nlinarith

theorem rowmajor_inj {a b c d B : ℤ} (b0 : 0 ≤ b) (hb : b < B) (d0 : 0 ≤ d) (hd : d < B) (h : a * B + b = c * B + d) : a = c ∧ b = d := by
  have e : (a - c) * B = d - b := by linarith
  have : a = c := by
    rcases lt_trichotomy a c with l | q | g
    · nlinarith
    · exact q
    · nlinarith
  subst this
  exact ⟨rfl, by linarith⟩

/-- addresses of the table of violations -/
theorem cells_inj {s t i u v w K m : ℤ} (t0 : 0 ≤ t) (ht : t < K) (i0 : 0 ≤ i) (hi : i < m) (v0 : 0 ≤ v) (hv : v < K) (w0 : 0 ≤ w) (hw : w < m)
    (h : s * (K * m) + t * m + i = u * (K * m) + v * m + w) : s = u ∧ t = v ∧ i = w := by
  have a := rowmajor_range t0 ht i0 hi
  have b := rowmajor_range v0 hv w0 hw
  obtain ⟨e, f⟩ := rowmajor_inj a.1 a.2 b.1 b.2 (by linarith : s * (K * m) + (t * m + i) = u * (K * m) + (v * m + w))
  exact ⟨e, rowmajor_inj i0 hi w0 hw f⟩

theorem cells_range {s t i K m : ℤ} (s0 : 0 ≤ s) (hs : s < K) (t0 : 0 ≤ t) (ht : t < K) (i0 : 0 ≤ i) (hi : i < m) :
    0 ≤ s * (K * m) + t * m + i ∧ s * (K * m) + t * m + i < K * K * m := by
  have a := rowmajor_range t0 ht i0 hi
  have b := rowmajor_range s0 hs a.1 a.2
  constructor
  · linarith [b.1]
  · nlinarith [b.2]

end DV
