// Dumps the tokens of every input: one JSON document on stdin (list of byte lists), one on stdout.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"os"
	"time"
	"unicode"

	"github.com/g-dx/clarac/lex"
)

var names = map[lex.Kind]string{
	lex.Err: "Err", lex.RBrace: "RBrace", lex.LBrace: "LBrace", lex.RParen: "RParen", lex.LParen: "LParen", lex.RBrack: "RBrack", lex.LBrack: "LBrack",
	lex.Comma: "Comma", lex.Colon: "Colon", lex.Dot: "Dot", lex.Hash: "Hash", lex.Question: "Question", lex.Comment: "Comment", lex.Identifier: "Identifier",
	lex.String: "String", lex.Integer: "Integer", lex.Plus: "Plus", lex.Mul: "Mul", lex.Div: "Div", lex.Min: "Min", lex.LGmet: "LGmet", lex.RGmet: "RGmet",
	lex.BAnd: "BAnd", lex.BOr: "BOr", lex.BNot: "BNot", lex.BXor: "BXor", lex.BLeft: "BLeft", lex.BRight: "BRight", lex.Gt: "Gt", lex.Gte: "Gte", lex.Lt: "Lt",
	lex.Lte: "Lte", lex.Eq: "Eq", lex.Space: "Space", lex.EOL: "EOL", lex.EOF: "EOF", lex.Das: "Das", lex.As: "As", lex.DotDot: "DotDot", lex.Fn: "Fn",
	lex.Return: "Return", lex.If: "If", lex.ElseIf: "ElseIf", lex.Else: "Else", lex.True: "True", lex.False: "False", lex.Not: "Not", lex.And: "And", lex.Or: "Or",
	lex.Struct: "Struct", lex.While: "While", lex.For: "For", lex.In: "In", lex.Enum: "Enum", lex.Match: "Match", lex.Case: "Case", lex.Type: "Type",
}

type rec struct {
	C  []int         `json:"c"`
	Cl []int         `json:"cl"`
	T  []interface{} `json:"t"`
}

func codes(s string) []int {
	r := []int{}
	for _, x := range s {
		r = append(r, int(x))
	}
	return r
}

func main() {
	var ins []string
	if err := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20)).Decode(&ins); err != nil {
		panic(err)
	}
	outs := make([]rec, 0, len(ins))
	for _, b := range ins {
		raw, err := base64.StdEncoding.DecodeString(b)
		if err != nil {
			panic(err)
		}
		in := string(raw)
		r := rec{C: codes(in), Cl: []int{}, T: []interface{}{}}
		for _, x := range r.C {
			k := 0
			if x == '_' || unicode.IsLetter(rune(x)) {
				k = 1
			} else if unicode.IsDigit(rune(x)) {
				k = 2
			}
			r.Cl = append(r.Cl, k)
		}
		l := lex.Lex(in, "f")
		done := make(chan bool, 1)
		go func() {
			for n := 0; n < len(raw)+3; n++ {
				t := l.NextToken()
				if t == nil {
					break
				}
				k, ok := names[t.Kind]
				if !ok {
					k = "?"
				}
				txt := []int{}
				if k != "Err" {
					txt = codes(t.Val)
				}
				r.T = append(r.T, []interface{}{k, t.Line, t.Pos, txt})
			}
			done <- true
		}()
		select {
		case <-done:
			outs = append(outs, r)
		case <-time.After(20 * time.Second):
			outs = append(outs, rec{C: r.C, Cl: r.Cl, T: []interface{}{[]interface{}{"hang", 0, 0, []int{}}}})
		}
	}
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	json.NewEncoder(w).Encode(map[string]interface{}{"traces": outs})
	w.Flush()
}
