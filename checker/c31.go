package main

import (
	"go/types"
	"strings"

	"verif/checker/ai"
)

func init() { checks["C31"] = checkC31 }

const hexDigits = "0123456789abcdef"

func checkC31(c *Check) {
	c.Rules = map[string]string{
		"format":   "the text has 36 characters: lower-case hexadecimal digits of the bytes in order, dashes after bytes 4, 6, 8 and 10",
		"parse":    "success means: the text without dashes is hexadecimal for exactly 16 bytes, and the value holds these bytes in order",
		"reject":   "anything else returns an error and leaves the value as it was",
		"complete": "a text of 32 hexadecimal digits with dashes is never rejected",
	}
	f := c.Need("pkg/uuid:UUID.String")
	if f == nil {
		return
	}
	x, args, outs := c.run(f, nil, nil)
	w := fnShort(f)
	for _, o := range outs {
		if o.Kind != "return" {
			c.Ob(false, "format", w, c.pos(f.Pos()), "does not return")
			continue
		}
		c.Ob(holds(o.St, ai.Eq(ai.StrLen(o.Ret), ai.I64(36))), "format", w+" length", c.pos(f.Pos()), "length is %v", ai.StrLen(o.Ret))
		pos := int64(0)
		for i := 0; i < 16; i++ {
			if i == 4 || i == 6 || i == 8 || i == 10 {
				c.Ob(charIs(x, o.St, o.Ret, pos, nil, 0), "format", w, c.pos(f.Pos()), "character %d is %v, not a dash", pos, charAt(o.St, o.Ret, pos))
				pos++
			}
			for h := 0; h < 2; h++ {
				ok := charIs(x, o.St, o.Ret, pos, args[0].A[i], h)
				c.Ob(ok, "format", w, c.pos(f.Pos()), "character %d is %v, not a digit of byte %d", pos, charAt(o.St, o.Ret, pos), i)
				pos++
			}
		}
	}
	for _, n := range []string{"UUID.Set", "New"} {
		f := c.Need("pkg/uuid:" + n)
		if f == nil {
			continue
		}
		var u0 *ai.Term
		ut := c.namedType("pkg/uuid", "UUID")
		x, args, outs := c.run(f, func(x *ai.Exec, st *ai.State, a []*ai.Term) {
			if n == "UUID.Set" {
				x.Assume(st, ai.Not(ai.Eq(a[0], ai.Nil)))
				u0 = st.Load(a[0], ut)
			}
		}, nil)
		w := fnShort(f)
		text := args[len(args)-1]
		good := 0
		for _, o := range outs {
			if o.Kind != "return" {
				c.Ob(false, "parse", w, c.pos(f.Pos()), "does not return")
				continue
			}
			var err, val *ai.Term
			if n == "UUID.Set" {
				err, val = o.Ret, o.St.Load(args[0], ut)
			} else {
				val, err = o.Ret.A[0], o.Ret.A[1]
			}
			dec := decodedOf(o.St, text)
			switch o.St.Facts.Holds(ai.Eq(err, ai.Nil)) {
			case 1:
				good++
				ok := dec != nil && holds(o.St, ai.Eq(dec.A[2], ai.I64(16))) && val.Op == ai.OStruct && len(val.A) == 16
				if ok {
					for i := 0; i < 16; i++ {
						ok = ok && same(o.St, val.A[i], o.St.ReadElem(dec.A[0], ai.AddK(dec.A[1], int64(i)), types.Typ[types.Uint8]))
					}
				}
				c.Ob(ok, "parse", w, c.pos(f.Pos()), "success with value %v", val)
			case -1:
				if u0 != nil {
					c.Ob(same(o.St, val, u0), "reject", w, c.pos(f.Pos()), "value changed although an error is returned")
				}
				// rejected although decoding gave 16 bytes?
				c.Ob(dec == nil || notHolds(o.St, ai.Eq(dec.A[2], ai.I64(16))), "complete", w, c.pos(f.Pos()), "rejects a valid text: %v", err)
			default:
				c.Ob(false, "reject", w, c.pos(f.Pos()), "error result undecided: %v", err)
			}
		}
		if good == 0 {
			c.Ob(false, "complete", w, c.pos(f.Pos()), "never succeeds")
		}
		_ = x
	}
}

// decodedOf finds the bytes a successful hexadecimal decoding of the text
// without its dashes produced on a path.
func decodedOf(st *ai.State, text *ai.Term) *ai.Term {
	for _, e := range events(st) {
		if !strings.HasSuffix(e.Name, "hex.DecodeString") || e.Res == nil || e.Res.Op != ai.OTuple || e.Res.A[1] != ai.Nil {
			continue
		}
		a := e.Args[0]
		if a.Op == ai.OApp && (a.S == "strings.Replace" && a.A[3] == ai.I64(-1) || a.S == "strings.ReplaceAll") &&
			a.A[0] == text && a.A[1] == ai.Str("-") && a.A[2] == ai.Str("") {
			return e.Res.A[0]
		}
	}
	return nil
}

func charAt(st *ai.State, s *ai.Term, k int64) *ai.Term {
	if s.Op == ai.OStr {
		if k < int64(len(s.S)) {
			return ai.Int(8, uint64(s.S[k]))
		}
		return nil
	}
	return st.StrChar(s, ai.I64(k))
}

// charIs reports whether character k of s is the dash (b nil) or the high
// (h 0) or low (h 1) hexadecimal digit of b.
func charIs(x *ai.Exec, st *ai.State, s *ai.Term, k int64, b *ai.Term, h int) bool {
	ch := charAt(st, s, k)
	if ch == nil {
		return false
	}
	if b == nil {
		return same(st, ch, ai.Int(8, '-'))
	}
	// every value of the byte in turn
	for v := uint64(0); v < 256; v++ {
		s2 := st.Clone()
		x.Assume(s2, ai.Eq(b, ai.Int(8, v)))
		if infeasible(s2) {
			continue
		}
		nib := v >> 4
		if h == 1 {
			nib = v & 15
		}
		want := ai.Int(8, uint64(hexDigits[nib]))
		t := ai.Subst(ch, map[*ai.Term]*ai.Term{b: ai.Int(8, v)})
		if t != want && !same(s2, t, want) {
			return false
		}
	}
	return true
}
