/-
Induction schemas behind the loop rules of vc/loops.py.

A loop over k = 0 .. n-1 is a step function on states; `iter step s0 k` is the state at the
start of iteration k.  A state is a family of cells `ι → α` (scalars: one cell; arrays: one
cell per index).  For each rule: if the step has the recognised form, then the closed form
used by the verifier is the value of the cell at the start of iteration k, for every k.
-/

universe u v

def iter {σ : Type u} (step : Nat → σ → σ) (s0 : σ) : Nat → σ
  | 0 => s0
  | k + 1 => step k (iter step s0 k)

def sumTo {α : Type u} (zero : α) (add : α → α → α) (d : Nat → α) : Nat → α
  | 0 => zero
  | k + 1 => add (sumTo zero add d k) (d k)

/-- INVARIANT: a predicate that holds initially and is preserved holds at every iteration -/
theorem rule_invariant {σ : Type u} (step : Nat → σ → σ) (s0 : σ) (P : Nat → σ → Prop)
    (h0 : P 0 s0) (hs : ∀ k s, P k s → P (k + 1) (step k s)) (k : Nat) :
    P k (iter step s0 k) := by
  induction k with
  | zero => exact h0
  | succ k ih => exact hs k _ ih

/-- INVARIANT, closed form: the part `get` of the state equals `f k` at the start of k.
`known` stands for the cells already solved, which may be used while proving the step. -/
theorem rule_closed_form {σ : Type u} {β : Type v} (step : Nat → σ → σ) (s0 : σ) (get : σ → β)
    (f : Nat → β) (known : Nat → σ → Prop) (hk : ∀ k, known k (iter step s0 k))
    (h0 : get s0 = f 0) (hs : ∀ k s, known k s → get s = f k → get (step k s) = f (k + 1)) (k : Nat) :
    get (iter step s0 k) = f k := by
  induction k with
  | zero => exact h0
  | succ k ih => exact hs k _ (hk k) ih

/-- LAST: the new value does not depend on the old one -/
theorem rule_last {σ : Type u} {β : Type v} (step : Nat → σ → σ) (s0 : σ) (get : σ → β) (e : Nat → β)
    (known : Nat → σ → Prop) (hk : ∀ k, known k (iter step s0 k))
    (hs : ∀ k s, known k s → get (step k s) = e k) (k : Nat) :
    get (iter step s0 k) = (if 0 < k then e (k - 1) else get s0) := by
  cases k with
  | zero => simp [iter]
  | succ k => simp [iter, hs k _ (hk k)]

/-- SUM (also accumulation into an array cell): new = old + d k -/
theorem rule_sum {σ : Type u} {β : Type v} (zero : β) (add : β → β → β)
    (assoc : ∀ a b c, add (add a b) c = add a (add b c)) (right_zero : ∀ a, add a zero = a)
    (step : Nat → σ → σ) (s0 : σ) (get : σ → β) (d : Nat → β)
    (known : Nat → σ → Prop) (hk : ∀ k, known k (iter step s0 k))
    (hs : ∀ k s, known k s → get (step k s) = add (get s) (d k)) (k : Nat) :
    get (iter step s0 k) = add (get s0) (sumTo zero add d k) := by
  induction k with
  | zero => simp [iter, sumTo, right_zero]
  | succ k ih => simp [iter, sumTo, hs k _ (hk k), ih, assoc]

/-- MAX / MIN: new = the better of old and x k (`le` any total preorder) -/
def bestTo {α : Type u} (better : α → α → α) (x : Nat → α) : Nat → α
  | 0 => x 0
  | k + 1 => better (bestTo better x k) (x (k + 1))

theorem rule_max {σ : Type u} {β : Type v} (better : β → β → β)
    (assoc : ∀ a b c, better (better a b) c = better a (better b c))
    (step : Nat → σ → σ) (s0 : σ) (get : σ → β) (x : Nat → β)
    (known : Nat → σ → Prop) (hk : ∀ k, known k (iter step s0 k))
    (hs : ∀ k s, known k s → get (step k s) = better (get s) (x k)) (k : Nat) :
    get (iter step s0 (k + 1)) = better (get s0) (bestTo better x k) := by
  induction k with
  | zero => exact hs 0 s0 (hk 0)
  | succ k ih =>
    have h : get (iter step s0 (k + 1 + 1)) = better (get (iter step s0 (k + 1))) (x (k + 1)) := by
      show get (step (k + 1) (iter step s0 (k + 1))) = _
      exact hs (k + 1) _ (hk (k + 1))
    rw [h, ih, assoc]; rfl

/-- WRITE-ONCE: cell i is written in iteration `w i` only (and keeps its value otherwise) -/
theorem rule_write_once {σ : Type u} {ι : Type u} {β : Type v} (step : Nat → σ → σ) (s0 : σ)
    (get : σ → ι → β) (w : ι → Nat) (e : ι → β)
    (known : Nat → σ → Prop) (hk : ∀ k, known k (iter step s0 k))
    (hw : ∀ i s, known (w i) s → get s i = get s0 i → get (step (w i) s) i = e i)
    (hk' : ∀ i k s, known k s → k ≠ w i → get (step k s) i = get s i) (i : ι) (k : Nat) :
    get (iter step s0 k) i = (if w i < k then e i else get s0 i) := by
  induction k with
  | zero => simp [iter]
  | succ k ih =>
    by_cases h : k = w i
    · have h1 : get (iter step s0 k) i = get s0 i := by
        rw [ih]; simp [h]
      have h2 : get (step (w i) (iter step s0 (w i))) i = e i :=
        hw i _ (hk (w i)) (by rw [← h]; exact h1)
      simp [iter, h, h2]
    · have h3 := hk' i k _ (hk k) h
      simp only [iter, h3, ih]
      by_cases hlt : w i < k
      · simp [hlt, Nat.lt_succ_of_lt hlt]
      · have : ¬ w i < k + 1 := by omega
        simp [hlt, this]

/-- RECURSION: iteration k writes cell k from the cells below k.  Any two sequences with the same
defining equation agree, so the closed form (a symbol constrained by its defining equation only)
is the array the loop builds. -/
theorem rule_recursion {α : Type u} (F : (Nat → α) → Nat → α)
    (local_ : ∀ R S k, (∀ j, j < k → R j = S j) → F R k = F S k)
    (R S : Nat → α) (hR : ∀ k, R k = F R k) (hS : ∀ k, S k = F S k) (k : Nat) : R k = S k := by
  induction k using Nat.strongRecOn with
  | ind k ih => rw [hR k, hS k]; exact local_ R S k ih

/-- PEEL: the first iteration executed, the rest as a loop with shifted index -/
theorem rule_peel {σ : Type u} (step : Nat → σ → σ) (s0 : σ) (k : Nat) :
    iter step s0 (k + 1) = iter (fun j => step (j + 1)) (step 0 s0) k := by
  induction k with
  | zero => rfl
  | succ k ih => show step (k + 1) (iter step s0 (k + 1)) = _; rw [ih]; rfl

/-- CUT: a value that equals its definition may be replaced by an arbitrary one with that
property; what is proved for every such value holds for the definition. -/
theorem rule_cut {α : Type u} (v d : α) (h : v = d) (Q : α → Prop) (hq : ∀ x, x = d → Q x) : Q v := hq v h
