exec(open("/verif/tools/seed/spec/common.py").read())
ID="c13-early-put"; PROP="C13"
NEEDS="two goroutines decoding values of a named number type at the same time"
BREAKS="the parser goes back to the pool before its result is used"
EDITS=[("generator/codegen/transit.go","""	return NewUnmarshalFunc(t.name)
""","""	decls := NewUnmarshalFunc(t.name)
	if helpers.ZeroValueOfT(t.tran) == asthlp.Zero {
		// a scalar keeps nothing of the parsed document, so there is no need to defer
		for _, d := range decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			for i, s := range fn.Body.List {
				if df, ok := s.(*ast.DeferStmt); ok {
					fn.Body.List[i] = &ast.ExprStmt{X: df.Call}
				}
			}
		}
	}
	return decls
""")]
M={"t/types.go":"""package t

//json:json
type Num int64
""","main.go":main("""	var wg sync.WaitGroup
	var bad int64
	for g := 0; g < 16; g++ {
		want := t.Num(int64(g+1) * 1111111111111111)
		wg.Add(1)
		go func() {
			defer wg.Done()
			doc := []byte(fmt.Sprint(int64(want)))
			for i := 0; i < 200000; i++ {
				var v t.Num
				if err := v.UnmarshalJSON(doc); err != nil || v != want {
					atomic.AddInt64(&bad, 1)
					return
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		fail("%d goroutines saw the values of others", bad)
	}""",("sync","sync/atomic"))}
