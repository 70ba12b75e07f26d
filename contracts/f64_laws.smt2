; The laws of f64 which contracts/shim.rs states as axioms (ax_*), as
; theorems of the SMT-LIB theory of IEEE 754 numbers. One query each, and
; each has to be unsat. f_add is fp.add with RNE, f_mul fp.mul with RNE, f_div
; fp.div with RNE, f_num "not a NaN", f64_of_int the (exact) conversion.
(set-logic QF_BVFP)
(declare-const a Float64)
(declare-const b Float64)
(declare-const x (_ BitVec 32))
(define-fun num ((v Float64)) Bool (not (fp.isNaN v)))
(echo "ax_add_comm")
(push 1)(assert (not (= (fp.add RNE a b) (fp.add RNE b a))))(check-sat)(pop 1)
(echo "ax_mul_comm")
(push 1)(assert (not (= (fp.mul RNE a b) (fp.mul RNE b a))))(check-sat)(pop 1)
(echo "ax_cmp_flip")
(push 1)(assert (not (and (= (fp.lt a b) (fp.gt b a)) (= (fp.gt a b) (fp.lt b a)) (= (fp.eq a b) (fp.eq b a)))))(check-sat)(pop 1)
(echo "ax_cmp_num")
(push 1)(assert (and (num a) (num b) (not (or (fp.lt a b) (fp.gt a b) (fp.eq a b)))))(check-sat)(pop 1)
(echo "ax_num_unit")
(push 1)(assert (and (bvsle #x00000000 x) (bvsle x #x000000ff) (not (num (fp.div RNE ((_ to_fp 11 53) RNE x) ((_ to_fp 11 53) RNE 255.0))))))(check-sat)(pop 1)
(echo "ax_num_min")
(push 1)(assert (and (num a) (num b) (not (num (fp.min a b)))))(check-sat)(pop 1)
(echo "ax_num_max")
(push 1)(assert (and (num a) (num b) (not (num (fp.max a b)))))(check-sat)(pop 1)
(echo "ax_num_0")
(push 1)(assert (not (num ((_ to_fp 11 53) RNE 0.0))))(check-sat)(pop 1)
(echo "ax_num_025")
(push 1)(assert (not (num ((_ to_fp 11 53) RNE 0.25))))(check-sat)(pop 1)
(echo "ax_num_05")
(push 1)(assert (not (num ((_ to_fp 11 53) RNE 0.5))))(check-sat)(pop 1)
(echo "ax_num_1")
(push 1)(assert (not (num ((_ to_fp 11 53) RNE 1.0))))(check-sat)(pop 1)
