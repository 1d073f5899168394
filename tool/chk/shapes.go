package chk

import "fmt"

// The finite family of structural shapes: number of ciphertext primes, number
// of special primes and digit grouping (alpha = NP/Gamma ciphertext primes per
// digit).  Primes, ring elements, keys and noise stay symbolic.
var (
	rA1  = Shape{Name: "rlwe-q3p2", NQ: 3, NP: 2, Gamma: 2}
	rA2  = Shape{Name: "rlwe-q4p4", NQ: 4, NP: 4, Gamma: 2}
	rA2p = Shape{Name: "rlwe-q3p4", NQ: 3, NP: 4, Gamma: 2} // last digit incomplete
	rA3  = Shape{Name: "rlwe-q5p6", NQ: 5, NP: 6, Gamma: 2} // three primes per digit, last incomplete
	rP5  = Shape{Name: "rlwe-q4p5", NQ: 4, NP: 5, Gamma: 2} // gamma does not divide the special primes
	rG3  = Shape{Name: "rlwe-q3p3g3", NQ: 3, NP: 3, Gamma: 3}

	cA1  = Shape{Name: "ckks-q4p2", NQ: 4, NP: 2, Gamma: 2, LogQ: 40, Scale: 1 << 40}
	cA2  = Shape{Name: "ckks-q4p4", NQ: 4, NP: 4, Gamma: 2, LogQ: 40, Scale: 1 << 40}
	cA2p = Shape{Name: "ckks-q3p4", NQ: 3, NP: 4, Gamma: 2, LogQ: 40, Log0: 55, Scale: 1 << 40}

	cP5 = Shape{Name: "ckks-q3p5", NQ: 3, NP: 5, Gamma: 2, LogQ: 40, Scale: 1 << 40}

	bA1  = Shape{Name: "bfv-q2p2", NQ: 2, NP: 2, Gamma: 2, LogQ: 60}
	bA13 = Shape{Name: "bfv-q3p2", NQ: 3, NP: 2, Gamma: 2, LogQ: 60}
	bA2  = Shape{Name: "bfv-q2p4", NQ: 2, NP: 4, Gamma: 2, LogQ: 60}
	bA24 = Shape{Name: "bfv-q4p4", NQ: 4, NP: 4, Gamma: 2, LogQ: 60}
)

// otherShapes: numbers of primes and digit sizes besides the ones above, which a
// few instances of every rule visit.
func otherShapes(kind, tier string) []Shape {
	var r []Shape
	add := func(nq, np, g int) {
		s := Shape{Name: fmt.Sprintf("%s-q%dp%d", kind, nq, np), NQ: nq, NP: np, Gamma: g}
		if g != 2 {
			s.Name += fmt.Sprintf("g%d", g)
		}
		switch kind {
		case "ckks":
			s.LogQ, s.Scale = 40, 1<<40
		case "bfv":
			s.LogQ = 60
			if nq%(np/2) != 0 {
				return
			}
		}
		if len(r)%2 == 1 {
			s = s.rev()
		}
		r = append(r, s)
	}
	for _, x := range [][2]int{{1, 2}, {2, 2}, {4, 2}, {6, 2}, {2, 3}, {5, 3}, {1, 4}, {2, 4}, {5, 4}, {6, 4}, {2, 6}, {3, 6}, {4, 6}, {6, 6}, {7, 6}, {4, 8}, {5, 8}} {
		add(x[0], x[1], 2)
	}
	if kind == "rlwe" {
		add(4, 6, 3)
		add(3, 4, 4)
		add(2, 3, 3)
	}
	if deep(tier) {
		for nq := 3; nq <= 9; nq++ {
			for _, np := range []int{2, 4, 6, 7, 8, 10} {
				add(nq, np, 2)
			}
		}
	}
	return r
}

func (s Shape) rev() Shape {
	s.Rev = true
	s.Name += "-rev"
	return s
}
