// Code generated by tools/genembeds.py. DO NOT EDIT.

package main

type em1 struct{ A, X int }
type em2 struct {
	A int `json:"a"`
	b int
}
type em3 struct {
	em1
	B int
}
type em4 struct{ *em1 }
type em5 struct {
	A int    `json:"A"`
	B string `json:",omitempty"`
}
type em6 struct {
	em1 `json:"named"`
	C   int `json:"c,string"`
}
type em7 struct {
	*Em8
	D int
}
type Em8 struct {
	A int `json:"A,omitempty"`
	Y *int
}
type Em9 struct {
	em5
	Em8
}
type EmR struct {
	*EmR
	A, R int
}
type emP struct {
	*emQ
	A int
}
type emQ struct {
	*emP
	B int
}
type emInt int
type EmInt int
type emMap map[string]int
type EmMap map[string]int
type EmSl []int
type emIf interface{}
type EmIf interface{}
type emE struct{}

func embedTypes() []any {
	return []any{
		struct {
			em1
		}{},
		struct {
			em1
			A int
		}{},
		struct {
			A int
			em1
		}{},
		struct {
			em1
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			em1
		}{},
		struct {
			em1
			a int
		}{},
		struct {
			a int
			em1
		}{},
		struct {
			em1
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			em1
		}{},
		struct {
			em1 `json:"a"`
		}{},
		struct {
			em1 `json:"a"`
			A   int
		}{},
		struct {
			A   int
			em1 `json:"a"`
		}{},
		struct {
			em1 `json:"-"`
		}{},
		struct {
			em1 `json:"-"`
			A   int
		}{},
		struct {
			A   int
			em1 `json:"-"`
		}{},
		struct {
			em1 `json:",omitempty"`
		}{},
		struct {
			em1 `json:",omitempty"`
			A   int
		}{},
		struct {
			A   int
			em1 `json:",omitempty"`
		}{},
		struct {
			em1 `json:"A,omitempty"`
		}{},
		struct {
			em1 `json:"A,omitempty"`
			A   int
		}{},
		struct {
			A   int
			em1 `json:"A,omitempty"`
		}{},
		struct {
			em1 `json:",string"`
		}{},
		struct {
			em1 `json:",string"`
			A   int
		}{},
		struct {
			A   int
			em1 `json:",string"`
		}{},
		struct {
			*em1
		}{},
		struct {
			*em1
			A int
		}{},
		struct {
			A int
			*em1
		}{},
		struct {
			*em1
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			*em1
		}{},
		struct {
			*em1
			a int
		}{},
		struct {
			a int
			*em1
		}{},
		struct {
			*em1
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			*em1
		}{},
		struct {
			*em1 `json:"a"`
		}{},
		struct {
			*em1 `json:"a"`
			A    int
		}{},
		struct {
			A    int
			*em1 `json:"a"`
		}{},
		struct {
			*em1 `json:"-"`
		}{},
		struct {
			*em1 `json:"-"`
			A    int
		}{},
		struct {
			A    int
			*em1 `json:"-"`
		}{},
		struct {
			*em1 `json:",omitempty"`
		}{},
		struct {
			*em1 `json:",omitempty"`
			A    int
		}{},
		struct {
			A    int
			*em1 `json:",omitempty"`
		}{},
		struct {
			*em1 `json:"A,omitempty"`
		}{},
		struct {
			*em1 `json:"A,omitempty"`
			A    int
		}{},
		struct {
			A    int
			*em1 `json:"A,omitempty"`
		}{},
		struct {
			*em1 `json:",string"`
		}{},
		struct {
			*em1 `json:",string"`
			A    int
		}{},
		struct {
			A    int
			*em1 `json:",string"`
		}{},
		struct {
			em2
		}{},
		struct {
			em2
			A int
		}{},
		struct {
			A int
			em2
		}{},
		struct {
			em2
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			em2
		}{},
		struct {
			em2
			a int
		}{},
		struct {
			a int
			em2
		}{},
		struct {
			em2
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			em2
		}{},
		struct {
			em2 `json:"a"`
		}{},
		struct {
			em2 `json:"a"`
			A   int
		}{},
		struct {
			A   int
			em2 `json:"a"`
		}{},
		struct {
			em2 `json:"-"`
		}{},
		struct {
			em2 `json:"-"`
			A   int
		}{},
		struct {
			A   int
			em2 `json:"-"`
		}{},
		struct {
			em2 `json:",omitempty"`
		}{},
		struct {
			em2 `json:",omitempty"`
			A   int
		}{},
		struct {
			A   int
			em2 `json:",omitempty"`
		}{},
		struct {
			em2 `json:"A,omitempty"`
		}{},
		struct {
			em2 `json:"A,omitempty"`
			A   int
		}{},
		struct {
			A   int
			em2 `json:"A,omitempty"`
		}{},
		struct {
			em2 `json:",string"`
		}{},
		struct {
			em2 `json:",string"`
			A   int
		}{},
		struct {
			A   int
			em2 `json:",string"`
		}{},
		struct {
			em3
		}{},
		struct {
			em3
			A int
		}{},
		struct {
			A int
			em3
		}{},
		struct {
			em3
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			em3
		}{},
		struct {
			em3
			a int
		}{},
		struct {
			a int
			em3
		}{},
		struct {
			em3
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			em3
		}{},
		struct {
			em3 `json:"a"`
		}{},
		struct {
			em3 `json:"a"`
			A   int
		}{},
		struct {
			A   int
			em3 `json:"a"`
		}{},
		struct {
			em3 `json:"-"`
		}{},
		struct {
			em3 `json:"-"`
			A   int
		}{},
		struct {
			A   int
			em3 `json:"-"`
		}{},
		struct {
			em3 `json:",omitempty"`
		}{},
		struct {
			em3 `json:",omitempty"`
			A   int
		}{},
		struct {
			A   int
			em3 `json:",omitempty"`
		}{},
		struct {
			em3 `json:"A,omitempty"`
		}{},
		struct {
			em3 `json:"A,omitempty"`
			A   int
		}{},
		struct {
			A   int
			em3 `json:"A,omitempty"`
		}{},
		struct {
			em3 `json:",string"`
		}{},
		struct {
			em3 `json:",string"`
			A   int
		}{},
		struct {
			A   int
			em3 `json:",string"`
		}{},
		struct {
			*em3
		}{},
		struct {
			*em3
			A int
		}{},
		struct {
			A int
			*em3
		}{},
		struct {
			*em3
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			*em3
		}{},
		struct {
			*em3
			a int
		}{},
		struct {
			a int
			*em3
		}{},
		struct {
			*em3
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			*em3
		}{},
		struct {
			*em3 `json:"a"`
		}{},
		struct {
			*em3 `json:"a"`
			A    int
		}{},
		struct {
			A    int
			*em3 `json:"a"`
		}{},
		struct {
			*em3 `json:"-"`
		}{},
		struct {
			*em3 `json:"-"`
			A    int
		}{},
		struct {
			A    int
			*em3 `json:"-"`
		}{},
		struct {
			*em3 `json:",omitempty"`
		}{},
		struct {
			*em3 `json:",omitempty"`
			A    int
		}{},
		struct {
			A    int
			*em3 `json:",omitempty"`
		}{},
		struct {
			*em3 `json:"A,omitempty"`
		}{},
		struct {
			*em3 `json:"A,omitempty"`
			A    int
		}{},
		struct {
			A    int
			*em3 `json:"A,omitempty"`
		}{},
		struct {
			*em3 `json:",string"`
		}{},
		struct {
			*em3 `json:",string"`
			A    int
		}{},
		struct {
			A    int
			*em3 `json:",string"`
		}{},
		struct {
			em4
		}{},
		struct {
			em4
			A int
		}{},
		struct {
			A int
			em4
		}{},
		struct {
			em4
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			em4
		}{},
		struct {
			em4
			a int
		}{},
		struct {
			a int
			em4
		}{},
		struct {
			em4
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			em4
		}{},
		struct {
			em4 `json:"a"`
		}{},
		struct {
			em4 `json:"a"`
			A   int
		}{},
		struct {
			A   int
			em4 `json:"a"`
		}{},
		struct {
			em4 `json:"-"`
		}{},
		struct {
			em4 `json:"-"`
			A   int
		}{},
		struct {
			A   int
			em4 `json:"-"`
		}{},
		struct {
			em4 `json:",omitempty"`
		}{},
		struct {
			em4 `json:",omitempty"`
			A   int
		}{},
		struct {
			A   int
			em4 `json:",omitempty"`
		}{},
		struct {
			em4 `json:"A,omitempty"`
		}{},
		struct {
			em4 `json:"A,omitempty"`
			A   int
		}{},
		struct {
			A   int
			em4 `json:"A,omitempty"`
		}{},
		struct {
			em4 `json:",string"`
		}{},
		struct {
			em4 `json:",string"`
			A   int
		}{},
		struct {
			A   int
			em4 `json:",string"`
		}{},
		struct {
			em5
		}{},
		struct {
			em5
			A int
		}{},
		struct {
			A int
			em5
		}{},
		struct {
			em5
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			em5
		}{},
		struct {
			em5
			a int
		}{},
		struct {
			a int
			em5
		}{},
		struct {
			em5
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			em5
		}{},
		struct {
			em5 `json:"a"`
		}{},
		struct {
			em5 `json:"a"`
			A   int
		}{},
		struct {
			A   int
			em5 `json:"a"`
		}{},
		struct {
			em5 `json:"-"`
		}{},
		struct {
			em5 `json:"-"`
			A   int
		}{},
		struct {
			A   int
			em5 `json:"-"`
		}{},
		struct {
			em5 `json:",omitempty"`
		}{},
		struct {
			em5 `json:",omitempty"`
			A   int
		}{},
		struct {
			A   int
			em5 `json:",omitempty"`
		}{},
		struct {
			em5 `json:"A,omitempty"`
		}{},
		struct {
			em5 `json:"A,omitempty"`
			A   int
		}{},
		struct {
			A   int
			em5 `json:"A,omitempty"`
		}{},
		struct {
			em5 `json:",string"`
		}{},
		struct {
			em5 `json:",string"`
			A   int
		}{},
		struct {
			A   int
			em5 `json:",string"`
		}{},
		struct {
			*em5
		}{},
		struct {
			*em5
			A int
		}{},
		struct {
			A int
			*em5
		}{},
		struct {
			*em5
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			*em5
		}{},
		struct {
			*em5
			a int
		}{},
		struct {
			a int
			*em5
		}{},
		struct {
			*em5
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			*em5
		}{},
		struct {
			*em5 `json:"a"`
		}{},
		struct {
			*em5 `json:"a"`
			A    int
		}{},
		struct {
			A    int
			*em5 `json:"a"`
		}{},
		struct {
			*em5 `json:"-"`
		}{},
		struct {
			*em5 `json:"-"`
			A    int
		}{},
		struct {
			A    int
			*em5 `json:"-"`
		}{},
		struct {
			*em5 `json:",omitempty"`
		}{},
		struct {
			*em5 `json:",omitempty"`
			A    int
		}{},
		struct {
			A    int
			*em5 `json:",omitempty"`
		}{},
		struct {
			*em5 `json:"A,omitempty"`
		}{},
		struct {
			*em5 `json:"A,omitempty"`
			A    int
		}{},
		struct {
			A    int
			*em5 `json:"A,omitempty"`
		}{},
		struct {
			*em5 `json:",string"`
		}{},
		struct {
			*em5 `json:",string"`
			A    int
		}{},
		struct {
			A    int
			*em5 `json:",string"`
		}{},
		struct {
			em6
		}{},
		struct {
			em6
			A int
		}{},
		struct {
			A int
			em6
		}{},
		struct {
			em6
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			em6
		}{},
		struct {
			em6
			a int
		}{},
		struct {
			a int
			em6
		}{},
		struct {
			em6
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			em6
		}{},
		struct {
			em6 `json:"a"`
		}{},
		struct {
			em6 `json:"a"`
			A   int
		}{},
		struct {
			A   int
			em6 `json:"a"`
		}{},
		struct {
			em6 `json:"-"`
		}{},
		struct {
			em6 `json:"-"`
			A   int
		}{},
		struct {
			A   int
			em6 `json:"-"`
		}{},
		struct {
			em6 `json:",omitempty"`
		}{},
		struct {
			em6 `json:",omitempty"`
			A   int
		}{},
		struct {
			A   int
			em6 `json:",omitempty"`
		}{},
		struct {
			em6 `json:"A,omitempty"`
		}{},
		struct {
			em6 `json:"A,omitempty"`
			A   int
		}{},
		struct {
			A   int
			em6 `json:"A,omitempty"`
		}{},
		struct {
			em6 `json:",string"`
		}{},
		struct {
			em6 `json:",string"`
			A   int
		}{},
		struct {
			A   int
			em6 `json:",string"`
		}{},
		struct {
			em7
		}{},
		struct {
			em7
			A int
		}{},
		struct {
			A int
			em7
		}{},
		struct {
			em7
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			em7
		}{},
		struct {
			em7
			a int
		}{},
		struct {
			a int
			em7
		}{},
		struct {
			em7
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			em7
		}{},
		struct {
			em7 `json:"a"`
		}{},
		struct {
			em7 `json:"a"`
			A   int
		}{},
		struct {
			A   int
			em7 `json:"a"`
		}{},
		struct {
			em7 `json:"-"`
		}{},
		struct {
			em7 `json:"-"`
			A   int
		}{},
		struct {
			A   int
			em7 `json:"-"`
		}{},
		struct {
			em7 `json:",omitempty"`
		}{},
		struct {
			em7 `json:",omitempty"`
			A   int
		}{},
		struct {
			A   int
			em7 `json:",omitempty"`
		}{},
		struct {
			em7 `json:"A,omitempty"`
		}{},
		struct {
			em7 `json:"A,omitempty"`
			A   int
		}{},
		struct {
			A   int
			em7 `json:"A,omitempty"`
		}{},
		struct {
			em7 `json:",string"`
		}{},
		struct {
			em7 `json:",string"`
			A   int
		}{},
		struct {
			A   int
			em7 `json:",string"`
		}{},
		struct {
			*em7
		}{},
		struct {
			*em7
			A int
		}{},
		struct {
			A int
			*em7
		}{},
		struct {
			*em7
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			*em7
		}{},
		struct {
			*em7
			a int
		}{},
		struct {
			a int
			*em7
		}{},
		struct {
			*em7
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			*em7
		}{},
		struct {
			*em7 `json:"a"`
		}{},
		struct {
			*em7 `json:"a"`
			A    int
		}{},
		struct {
			A    int
			*em7 `json:"a"`
		}{},
		struct {
			*em7 `json:"-"`
		}{},
		struct {
			*em7 `json:"-"`
			A    int
		}{},
		struct {
			A    int
			*em7 `json:"-"`
		}{},
		struct {
			*em7 `json:",omitempty"`
		}{},
		struct {
			*em7 `json:",omitempty"`
			A    int
		}{},
		struct {
			A    int
			*em7 `json:",omitempty"`
		}{},
		struct {
			*em7 `json:"A,omitempty"`
		}{},
		struct {
			*em7 `json:"A,omitempty"`
			A    int
		}{},
		struct {
			A    int
			*em7 `json:"A,omitempty"`
		}{},
		struct {
			*em7 `json:",string"`
		}{},
		struct {
			*em7 `json:",string"`
			A    int
		}{},
		struct {
			A    int
			*em7 `json:",string"`
		}{},
		struct {
			Em8
		}{},
		struct {
			Em8
			A int
		}{},
		struct {
			A int
			Em8
		}{},
		struct {
			Em8
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			Em8
		}{},
		struct {
			Em8
			a int
		}{},
		struct {
			a int
			Em8
		}{},
		struct {
			Em8
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			Em8
		}{},
		struct {
			Em8 `json:"a"`
		}{},
		struct {
			Em8 `json:"a"`
			A   int
		}{},
		struct {
			A   int
			Em8 `json:"a"`
		}{},
		struct {
			Em8 `json:"-"`
		}{},
		struct {
			Em8 `json:"-"`
			A   int
		}{},
		struct {
			A   int
			Em8 `json:"-"`
		}{},
		struct {
			Em8 `json:",omitempty"`
		}{},
		struct {
			Em8 `json:",omitempty"`
			A   int
		}{},
		struct {
			A   int
			Em8 `json:",omitempty"`
		}{},
		struct {
			Em8 `json:"A,omitempty"`
		}{},
		struct {
			Em8 `json:"A,omitempty"`
			A   int
		}{},
		struct {
			A   int
			Em8 `json:"A,omitempty"`
		}{},
		struct {
			Em8 `json:",string"`
		}{},
		struct {
			Em8 `json:",string"`
			A   int
		}{},
		struct {
			A   int
			Em8 `json:",string"`
		}{},
		struct {
			*Em8
		}{},
		struct {
			*Em8
			A int
		}{},
		struct {
			A int
			*Em8
		}{},
		struct {
			*Em8
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			*Em8
		}{},
		struct {
			*Em8
			a int
		}{},
		struct {
			a int
			*Em8
		}{},
		struct {
			*Em8
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			*Em8
		}{},
		struct {
			*Em8 `json:"a"`
		}{},
		struct {
			*Em8 `json:"a"`
			A    int
		}{},
		struct {
			A    int
			*Em8 `json:"a"`
		}{},
		struct {
			*Em8 `json:"-"`
		}{},
		struct {
			*Em8 `json:"-"`
			A    int
		}{},
		struct {
			A    int
			*Em8 `json:"-"`
		}{},
		struct {
			*Em8 `json:",omitempty"`
		}{},
		struct {
			*Em8 `json:",omitempty"`
			A    int
		}{},
		struct {
			A    int
			*Em8 `json:",omitempty"`
		}{},
		struct {
			*Em8 `json:"A,omitempty"`
		}{},
		struct {
			*Em8 `json:"A,omitempty"`
			A    int
		}{},
		struct {
			A    int
			*Em8 `json:"A,omitempty"`
		}{},
		struct {
			*Em8 `json:",string"`
		}{},
		struct {
			*Em8 `json:",string"`
			A    int
		}{},
		struct {
			A    int
			*Em8 `json:",string"`
		}{},
		struct {
			Em9
		}{},
		struct {
			Em9
			A int
		}{},
		struct {
			A int
			Em9
		}{},
		struct {
			Em9
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			Em9
		}{},
		struct {
			Em9
			a int
		}{},
		struct {
			a int
			Em9
		}{},
		struct {
			Em9
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			Em9
		}{},
		struct {
			Em9 `json:"a"`
		}{},
		struct {
			Em9 `json:"a"`
			A   int
		}{},
		struct {
			A   int
			Em9 `json:"a"`
		}{},
		struct {
			Em9 `json:"-"`
		}{},
		struct {
			Em9 `json:"-"`
			A   int
		}{},
		struct {
			A   int
			Em9 `json:"-"`
		}{},
		struct {
			Em9 `json:",omitempty"`
		}{},
		struct {
			Em9 `json:",omitempty"`
			A   int
		}{},
		struct {
			A   int
			Em9 `json:",omitempty"`
		}{},
		struct {
			Em9 `json:"A,omitempty"`
		}{},
		struct {
			Em9 `json:"A,omitempty"`
			A   int
		}{},
		struct {
			A   int
			Em9 `json:"A,omitempty"`
		}{},
		struct {
			Em9 `json:",string"`
		}{},
		struct {
			Em9 `json:",string"`
			A   int
		}{},
		struct {
			A   int
			Em9 `json:",string"`
		}{},
		struct {
			*Em9
		}{},
		struct {
			*Em9
			A int
		}{},
		struct {
			A int
			*Em9
		}{},
		struct {
			*Em9
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			*Em9
		}{},
		struct {
			*Em9
			a int
		}{},
		struct {
			a int
			*Em9
		}{},
		struct {
			*Em9
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			*Em9
		}{},
		struct {
			*Em9 `json:"a"`
		}{},
		struct {
			*Em9 `json:"a"`
			A    int
		}{},
		struct {
			A    int
			*Em9 `json:"a"`
		}{},
		struct {
			*Em9 `json:"-"`
		}{},
		struct {
			*Em9 `json:"-"`
			A    int
		}{},
		struct {
			A    int
			*Em9 `json:"-"`
		}{},
		struct {
			*Em9 `json:",omitempty"`
		}{},
		struct {
			*Em9 `json:",omitempty"`
			A    int
		}{},
		struct {
			A    int
			*Em9 `json:",omitempty"`
		}{},
		struct {
			*Em9 `json:"A,omitempty"`
		}{},
		struct {
			*Em9 `json:"A,omitempty"`
			A    int
		}{},
		struct {
			A    int
			*Em9 `json:"A,omitempty"`
		}{},
		struct {
			*Em9 `json:",string"`
		}{},
		struct {
			*Em9 `json:",string"`
			A    int
		}{},
		struct {
			A    int
			*Em9 `json:",string"`
		}{},
		struct {
			EmR
		}{},
		struct {
			EmR
			A int
		}{},
		struct {
			A int
			EmR
		}{},
		struct {
			EmR
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			EmR
		}{},
		struct {
			EmR
			a int
		}{},
		struct {
			a int
			EmR
		}{},
		struct {
			EmR
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			EmR
		}{},
		struct {
			EmR `json:"a"`
		}{},
		struct {
			EmR `json:"a"`
			A   int
		}{},
		struct {
			A   int
			EmR `json:"a"`
		}{},
		struct {
			EmR `json:"-"`
		}{},
		struct {
			EmR `json:"-"`
			A   int
		}{},
		struct {
			A   int
			EmR `json:"-"`
		}{},
		struct {
			EmR `json:",omitempty"`
		}{},
		struct {
			EmR `json:",omitempty"`
			A   int
		}{},
		struct {
			A   int
			EmR `json:",omitempty"`
		}{},
		struct {
			EmR `json:"A,omitempty"`
		}{},
		struct {
			EmR `json:"A,omitempty"`
			A   int
		}{},
		struct {
			A   int
			EmR `json:"A,omitempty"`
		}{},
		struct {
			EmR `json:",string"`
		}{},
		struct {
			EmR `json:",string"`
			A   int
		}{},
		struct {
			A   int
			EmR `json:",string"`
		}{},
		struct {
			*EmR
		}{},
		struct {
			*EmR
			A int
		}{},
		struct {
			A int
			*EmR
		}{},
		struct {
			*EmR
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			*EmR
		}{},
		struct {
			*EmR
			a int
		}{},
		struct {
			a int
			*EmR
		}{},
		struct {
			*EmR
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			*EmR
		}{},
		struct {
			*EmR `json:"a"`
		}{},
		struct {
			*EmR `json:"a"`
			A    int
		}{},
		struct {
			A    int
			*EmR `json:"a"`
		}{},
		struct {
			*EmR `json:"-"`
		}{},
		struct {
			*EmR `json:"-"`
			A    int
		}{},
		struct {
			A    int
			*EmR `json:"-"`
		}{},
		struct {
			*EmR `json:",omitempty"`
		}{},
		struct {
			*EmR `json:",omitempty"`
			A    int
		}{},
		struct {
			A    int
			*EmR `json:",omitempty"`
		}{},
		struct {
			*EmR `json:"A,omitempty"`
		}{},
		struct {
			*EmR `json:"A,omitempty"`
			A    int
		}{},
		struct {
			A    int
			*EmR `json:"A,omitempty"`
		}{},
		struct {
			*EmR `json:",string"`
		}{},
		struct {
			*EmR `json:",string"`
			A    int
		}{},
		struct {
			A    int
			*EmR `json:",string"`
		}{},
		struct {
			emP
		}{},
		struct {
			emP
			A int
		}{},
		struct {
			A int
			emP
		}{},
		struct {
			emP
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			emP
		}{},
		struct {
			emP
			a int
		}{},
		struct {
			a int
			emP
		}{},
		struct {
			emP
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			emP
		}{},
		struct {
			emP `json:"a"`
		}{},
		struct {
			emP `json:"a"`
			A   int
		}{},
		struct {
			A   int
			emP `json:"a"`
		}{},
		struct {
			emP `json:"-"`
		}{},
		struct {
			emP `json:"-"`
			A   int
		}{},
		struct {
			A   int
			emP `json:"-"`
		}{},
		struct {
			emP `json:",omitempty"`
		}{},
		struct {
			emP `json:",omitempty"`
			A   int
		}{},
		struct {
			A   int
			emP `json:",omitempty"`
		}{},
		struct {
			emP `json:"A,omitempty"`
		}{},
		struct {
			emP `json:"A,omitempty"`
			A   int
		}{},
		struct {
			A   int
			emP `json:"A,omitempty"`
		}{},
		struct {
			emP `json:",string"`
		}{},
		struct {
			emP `json:",string"`
			A   int
		}{},
		struct {
			A   int
			emP `json:",string"`
		}{},
		struct {
			emInt
		}{},
		struct {
			emInt
			A int
		}{},
		struct {
			A int
			emInt
		}{},
		struct {
			emInt
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			emInt
		}{},
		struct {
			emInt
			a int
		}{},
		struct {
			a int
			emInt
		}{},
		struct {
			emInt
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			emInt
		}{},
		struct {
			emInt `json:"a"`
		}{},
		struct {
			emInt `json:"a"`
			A     int
		}{},
		struct {
			A     int
			emInt `json:"a"`
		}{},
		struct {
			emInt `json:"-"`
		}{},
		struct {
			emInt `json:"-"`
			A     int
		}{},
		struct {
			A     int
			emInt `json:"-"`
		}{},
		struct {
			emInt `json:",omitempty"`
		}{},
		struct {
			emInt `json:",omitempty"`
			A     int
		}{},
		struct {
			A     int
			emInt `json:",omitempty"`
		}{},
		struct {
			emInt `json:"A,omitempty"`
		}{},
		struct {
			emInt `json:"A,omitempty"`
			A     int
		}{},
		struct {
			A     int
			emInt `json:"A,omitempty"`
		}{},
		struct {
			emInt `json:",string"`
		}{},
		struct {
			emInt `json:",string"`
			A     int
		}{},
		struct {
			A     int
			emInt `json:",string"`
		}{},
		struct {
			*emInt
		}{},
		struct {
			*emInt
			A int
		}{},
		struct {
			A int
			*emInt
		}{},
		struct {
			*emInt
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			*emInt
		}{},
		struct {
			*emInt
			a int
		}{},
		struct {
			a int
			*emInt
		}{},
		struct {
			*emInt
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			*emInt
		}{},
		struct {
			*emInt `json:"a"`
		}{},
		struct {
			*emInt `json:"a"`
			A      int
		}{},
		struct {
			A      int
			*emInt `json:"a"`
		}{},
		struct {
			*emInt `json:"-"`
		}{},
		struct {
			*emInt `json:"-"`
			A      int
		}{},
		struct {
			A      int
			*emInt `json:"-"`
		}{},
		struct {
			*emInt `json:",omitempty"`
		}{},
		struct {
			*emInt `json:",omitempty"`
			A      int
		}{},
		struct {
			A      int
			*emInt `json:",omitempty"`
		}{},
		struct {
			*emInt `json:"A,omitempty"`
		}{},
		struct {
			*emInt `json:"A,omitempty"`
			A      int
		}{},
		struct {
			A      int
			*emInt `json:"A,omitempty"`
		}{},
		struct {
			*emInt `json:",string"`
		}{},
		struct {
			*emInt `json:",string"`
			A      int
		}{},
		struct {
			A      int
			*emInt `json:",string"`
		}{},
		struct {
			EmInt
		}{},
		struct {
			EmInt
			A int
		}{},
		struct {
			A int
			EmInt
		}{},
		struct {
			EmInt
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			EmInt
		}{},
		struct {
			EmInt
			a int
		}{},
		struct {
			a int
			EmInt
		}{},
		struct {
			EmInt
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			EmInt
		}{},
		struct {
			EmInt `json:"a"`
		}{},
		struct {
			EmInt `json:"a"`
			A     int
		}{},
		struct {
			A     int
			EmInt `json:"a"`
		}{},
		struct {
			EmInt `json:"-"`
		}{},
		struct {
			EmInt `json:"-"`
			A     int
		}{},
		struct {
			A     int
			EmInt `json:"-"`
		}{},
		struct {
			EmInt `json:",omitempty"`
		}{},
		struct {
			EmInt `json:",omitempty"`
			A     int
		}{},
		struct {
			A     int
			EmInt `json:",omitempty"`
		}{},
		struct {
			EmInt `json:"A,omitempty"`
		}{},
		struct {
			EmInt `json:"A,omitempty"`
			A     int
		}{},
		struct {
			A     int
			EmInt `json:"A,omitempty"`
		}{},
		struct {
			EmInt `json:",string"`
		}{},
		struct {
			EmInt `json:",string"`
			A     int
		}{},
		struct {
			A     int
			EmInt `json:",string"`
		}{},
		struct {
			*EmInt
		}{},
		struct {
			*EmInt
			A int
		}{},
		struct {
			A int
			*EmInt
		}{},
		struct {
			*EmInt
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			*EmInt
		}{},
		struct {
			*EmInt
			a int
		}{},
		struct {
			a int
			*EmInt
		}{},
		struct {
			*EmInt
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			*EmInt
		}{},
		struct {
			*EmInt `json:"a"`
		}{},
		struct {
			*EmInt `json:"a"`
			A      int
		}{},
		struct {
			A      int
			*EmInt `json:"a"`
		}{},
		struct {
			*EmInt `json:"-"`
		}{},
		struct {
			*EmInt `json:"-"`
			A      int
		}{},
		struct {
			A      int
			*EmInt `json:"-"`
		}{},
		struct {
			*EmInt `json:",omitempty"`
		}{},
		struct {
			*EmInt `json:",omitempty"`
			A      int
		}{},
		struct {
			A      int
			*EmInt `json:",omitempty"`
		}{},
		struct {
			*EmInt `json:"A,omitempty"`
		}{},
		struct {
			*EmInt `json:"A,omitempty"`
			A      int
		}{},
		struct {
			A      int
			*EmInt `json:"A,omitempty"`
		}{},
		struct {
			*EmInt `json:",string"`
		}{},
		struct {
			*EmInt `json:",string"`
			A      int
		}{},
		struct {
			A      int
			*EmInt `json:",string"`
		}{},
		struct {
			emMap
		}{},
		struct {
			emMap
			A int
		}{},
		struct {
			A int
			emMap
		}{},
		struct {
			emMap
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			emMap
		}{},
		struct {
			emMap
			a int
		}{},
		struct {
			a int
			emMap
		}{},
		struct {
			emMap
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			emMap
		}{},
		struct {
			emMap `json:"a"`
		}{},
		struct {
			emMap `json:"a"`
			A     int
		}{},
		struct {
			A     int
			emMap `json:"a"`
		}{},
		struct {
			emMap `json:"-"`
		}{},
		struct {
			emMap `json:"-"`
			A     int
		}{},
		struct {
			A     int
			emMap `json:"-"`
		}{},
		struct {
			emMap `json:",omitempty"`
		}{},
		struct {
			emMap `json:",omitempty"`
			A     int
		}{},
		struct {
			A     int
			emMap `json:",omitempty"`
		}{},
		struct {
			emMap `json:"A,omitempty"`
		}{},
		struct {
			emMap `json:"A,omitempty"`
			A     int
		}{},
		struct {
			A     int
			emMap `json:"A,omitempty"`
		}{},
		struct {
			emMap `json:",string"`
		}{},
		struct {
			emMap `json:",string"`
			A     int
		}{},
		struct {
			A     int
			emMap `json:",string"`
		}{},
		struct {
			EmMap
		}{},
		struct {
			EmMap
			A int
		}{},
		struct {
			A int
			EmMap
		}{},
		struct {
			EmMap
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			EmMap
		}{},
		struct {
			EmMap
			a int
		}{},
		struct {
			a int
			EmMap
		}{},
		struct {
			EmMap
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			EmMap
		}{},
		struct {
			EmMap `json:"a"`
		}{},
		struct {
			EmMap `json:"a"`
			A     int
		}{},
		struct {
			A     int
			EmMap `json:"a"`
		}{},
		struct {
			EmMap `json:"-"`
		}{},
		struct {
			EmMap `json:"-"`
			A     int
		}{},
		struct {
			A     int
			EmMap `json:"-"`
		}{},
		struct {
			EmMap `json:",omitempty"`
		}{},
		struct {
			EmMap `json:",omitempty"`
			A     int
		}{},
		struct {
			A     int
			EmMap `json:",omitempty"`
		}{},
		struct {
			EmMap `json:"A,omitempty"`
		}{},
		struct {
			EmMap `json:"A,omitempty"`
			A     int
		}{},
		struct {
			A     int
			EmMap `json:"A,omitempty"`
		}{},
		struct {
			EmMap `json:",string"`
		}{},
		struct {
			EmMap `json:",string"`
			A     int
		}{},
		struct {
			A     int
			EmMap `json:",string"`
		}{},
		struct {
			EmSl
		}{},
		struct {
			EmSl
			A int
		}{},
		struct {
			A int
			EmSl
		}{},
		struct {
			EmSl
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			EmSl
		}{},
		struct {
			EmSl
			a int
		}{},
		struct {
			a int
			EmSl
		}{},
		struct {
			EmSl
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			EmSl
		}{},
		struct {
			EmSl `json:"a"`
		}{},
		struct {
			EmSl `json:"a"`
			A    int
		}{},
		struct {
			A    int
			EmSl `json:"a"`
		}{},
		struct {
			EmSl `json:"-"`
		}{},
		struct {
			EmSl `json:"-"`
			A    int
		}{},
		struct {
			A    int
			EmSl `json:"-"`
		}{},
		struct {
			EmSl `json:",omitempty"`
		}{},
		struct {
			EmSl `json:",omitempty"`
			A    int
		}{},
		struct {
			A    int
			EmSl `json:",omitempty"`
		}{},
		struct {
			EmSl `json:"A,omitempty"`
		}{},
		struct {
			EmSl `json:"A,omitempty"`
			A    int
		}{},
		struct {
			A    int
			EmSl `json:"A,omitempty"`
		}{},
		struct {
			EmSl `json:",string"`
		}{},
		struct {
			EmSl `json:",string"`
			A    int
		}{},
		struct {
			A    int
			EmSl `json:",string"`
		}{},
		struct {
			emIf
		}{},
		struct {
			emIf
			A int
		}{},
		struct {
			A int
			emIf
		}{},
		struct {
			emIf
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			emIf
		}{},
		struct {
			emIf
			a int
		}{},
		struct {
			a int
			emIf
		}{},
		struct {
			emIf
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			emIf
		}{},
		struct {
			emIf `json:"a"`
		}{},
		struct {
			emIf `json:"a"`
			A    int
		}{},
		struct {
			A    int
			emIf `json:"a"`
		}{},
		struct {
			emIf `json:"-"`
		}{},
		struct {
			emIf `json:"-"`
			A    int
		}{},
		struct {
			A    int
			emIf `json:"-"`
		}{},
		struct {
			emIf `json:",omitempty"`
		}{},
		struct {
			emIf `json:",omitempty"`
			A    int
		}{},
		struct {
			A    int
			emIf `json:",omitempty"`
		}{},
		struct {
			emIf `json:"A,omitempty"`
		}{},
		struct {
			emIf `json:"A,omitempty"`
			A    int
		}{},
		struct {
			A    int
			emIf `json:"A,omitempty"`
		}{},
		struct {
			emIf `json:",string"`
		}{},
		struct {
			emIf `json:",string"`
			A    int
		}{},
		struct {
			A    int
			emIf `json:",string"`
		}{},
		struct {
			EmIf
		}{},
		struct {
			EmIf
			A int
		}{},
		struct {
			A int
			EmIf
		}{},
		struct {
			EmIf
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			EmIf
		}{},
		struct {
			EmIf
			a int
		}{},
		struct {
			a int
			EmIf
		}{},
		struct {
			EmIf
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			EmIf
		}{},
		struct {
			EmIf `json:"a"`
		}{},
		struct {
			EmIf `json:"a"`
			A    int
		}{},
		struct {
			A    int
			EmIf `json:"a"`
		}{},
		struct {
			EmIf `json:"-"`
		}{},
		struct {
			EmIf `json:"-"`
			A    int
		}{},
		struct {
			A    int
			EmIf `json:"-"`
		}{},
		struct {
			EmIf `json:",omitempty"`
		}{},
		struct {
			EmIf `json:",omitempty"`
			A    int
		}{},
		struct {
			A    int
			EmIf `json:",omitempty"`
		}{},
		struct {
			EmIf `json:"A,omitempty"`
		}{},
		struct {
			EmIf `json:"A,omitempty"`
			A    int
		}{},
		struct {
			A    int
			EmIf `json:"A,omitempty"`
		}{},
		struct {
			EmIf `json:",string"`
		}{},
		struct {
			EmIf `json:",string"`
			A    int
		}{},
		struct {
			A    int
			EmIf `json:",string"`
		}{},
		struct {
			emE
		}{},
		struct {
			emE
			A int
		}{},
		struct {
			A int
			emE
		}{},
		struct {
			emE
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			emE
		}{},
		struct {
			emE
			a int
		}{},
		struct {
			a int
			emE
		}{},
		struct {
			emE
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			emE
		}{},
		struct {
			emE `json:"a"`
		}{},
		struct {
			emE `json:"a"`
			A   int
		}{},
		struct {
			A   int
			emE `json:"a"`
		}{},
		struct {
			emE `json:"-"`
		}{},
		struct {
			emE `json:"-"`
			A   int
		}{},
		struct {
			A   int
			emE `json:"-"`
		}{},
		struct {
			emE `json:",omitempty"`
		}{},
		struct {
			emE `json:",omitempty"`
			A   int
		}{},
		struct {
			A   int
			emE `json:",omitempty"`
		}{},
		struct {
			emE `json:"A,omitempty"`
		}{},
		struct {
			emE `json:"A,omitempty"`
			A   int
		}{},
		struct {
			A   int
			emE `json:"A,omitempty"`
		}{},
		struct {
			emE `json:",string"`
		}{},
		struct {
			emE `json:",string"`
			A   int
		}{},
		struct {
			A   int
			emE `json:",string"`
		}{},
		struct {
			*emE
		}{},
		struct {
			*emE
			A int
		}{},
		struct {
			A int
			*emE
		}{},
		struct {
			*emE
			B int `json:"A"`
		}{},
		struct {
			B int `json:"A"`
			*emE
		}{},
		struct {
			*emE
			a int
		}{},
		struct {
			a int
			*emE
		}{},
		struct {
			*emE
			Z string `json:"a,omitempty"`
		}{},
		struct {
			Z string `json:"a,omitempty"`
			*emE
		}{},
		struct {
			*emE `json:"a"`
		}{},
		struct {
			*emE `json:"a"`
			A    int
		}{},
		struct {
			A    int
			*emE `json:"a"`
		}{},
		struct {
			*emE `json:"-"`
		}{},
		struct {
			*emE `json:"-"`
			A    int
		}{},
		struct {
			A    int
			*emE `json:"-"`
		}{},
		struct {
			*emE `json:",omitempty"`
		}{},
		struct {
			*emE `json:",omitempty"`
			A    int
		}{},
		struct {
			A    int
			*emE `json:",omitempty"`
		}{},
		struct {
			*emE `json:"A,omitempty"`
		}{},
		struct {
			*emE `json:"A,omitempty"`
			A    int
		}{},
		struct {
			A    int
			*emE `json:"A,omitempty"`
		}{},
		struct {
			*emE `json:",string"`
		}{},
		struct {
			*emE `json:",string"`
			A    int
		}{},
		struct {
			A    int
			*emE `json:",string"`
		}{},
		struct {
			em1
			em2
		}{},
		struct {
			em1
			em3
		}{},
		struct {
			em1
			A int
			em3
		}{},
		struct {
			em1
			em3 `json:"a"`
		}{},
		struct {
			em1
			*em3
		}{},
		struct {
			em1
			em4
		}{},
		struct {
			em1
			em5
		}{},
		struct {
			em1
			A int
			em5
		}{},
		struct {
			em1
			em5 `json:"a"`
		}{},
		struct {
			em1
			*em5
		}{},
		struct {
			em1
			em6
		}{},
		struct {
			em1
			em7
		}{},
		struct {
			em1
			A int
			em7
		}{},
		struct {
			em1
			em7 `json:"a"`
		}{},
		struct {
			em1
			*em7
		}{},
		struct {
			em1
			Em8
		}{},
		struct {
			em1
			*Em8
		}{},
		struct {
			em1
			A int
			*Em8
		}{},
		struct {
			em1
			*Em8 `json:"a"`
		}{},
		struct {
			em1
			Em9
		}{},
		struct {
			em1
			*Em9
		}{},
		struct {
			em1
			EmR
		}{},
		struct {
			em1
			A int
			EmR
		}{},
		struct {
			em1
			EmR `json:"a"`
		}{},
		struct {
			em1
			*EmR
		}{},
		struct {
			em1
			emP
		}{},
		struct {
			em1
			emInt
		}{},
		struct {
			em1
			A int
			emInt
		}{},
		struct {
			em1
			emInt `json:"a"`
		}{},
		struct {
			em1
			*emInt
		}{},
		struct {
			em1
			EmInt
		}{},
		struct {
			em1
			*EmInt
		}{},
		struct {
			em1
			A int
			*EmInt
		}{},
		struct {
			em1
			*EmInt `json:"a"`
		}{},
		struct {
			em1
			emMap
		}{},
		struct {
			em1
			EmMap
		}{},
		struct {
			em1
			EmSl
		}{},
		struct {
			em1
			A int
			EmSl
		}{},
		struct {
			em1
			EmSl `json:"a"`
		}{},
		struct {
			em1
			emIf
		}{},
		struct {
			em1
			EmIf
		}{},
		struct {
			em1
			emE
		}{},
		struct {
			em1
			A int
			emE
		}{},
		struct {
			em1
			emE `json:"a"`
		}{},
		struct {
			em1
			*emE
		}{},
		struct {
			*em1
			em2
		}{},
		struct {
			*em1
			A int
			em2
		}{},
		struct {
			*em1
			em2 `json:"a"`
		}{},
		struct {
			*em1
			em3
		}{},
		struct {
			*em1
			*em3
		}{},
		struct {
			*em1
			em4
		}{},
		struct {
			*em1
			A int
			em4
		}{},
		struct {
			*em1
			em4 `json:"a"`
		}{},
		struct {
			*em1
			em5
		}{},
		struct {
			*em1
			*em5
		}{},
		struct {
			*em1
			em6
		}{},
		struct {
			*em1
			A int
			em6
		}{},
		struct {
			*em1
			em6 `json:"a"`
		}{},
		struct {
			*em1
			em7
		}{},
		struct {
			*em1
			*em7
		}{},
		struct {
			*em1
			Em8
		}{},
		struct {
			*em1
			A int
			Em8
		}{},
		struct {
			*em1
			Em8 `json:"a"`
		}{},
		struct {
			*em1
			*Em8
		}{},
		struct {
			*em1
			Em9
		}{},
		struct {
			*em1
			*Em9
		}{},
		struct {
			*em1
			A int
			*Em9
		}{},
		struct {
			*em1
			*Em9 `json:"a"`
		}{},
		struct {
			*em1
			EmR
		}{},
		struct {
			*em1
			*EmR
		}{},
		struct {
			*em1
			emP
		}{},
		struct {
			*em1
			A int
			emP
		}{},
		struct {
			*em1
			emP `json:"a"`
		}{},
		struct {
			*em1
			emInt
		}{},
		struct {
			*em1
			*emInt
		}{},
		struct {
			*em1
			EmInt
		}{},
		struct {
			*em1
			A int
			EmInt
		}{},
		struct {
			*em1
			EmInt `json:"a"`
		}{},
		struct {
			*em1
			*EmInt
		}{},
		struct {
			*em1
			emMap
		}{},
		struct {
			*em1
			EmMap
		}{},
		struct {
			*em1
			A int
			EmMap
		}{},
		struct {
			*em1
			EmMap `json:"a"`
		}{},
		struct {
			*em1
			EmSl
		}{},
		struct {
			*em1
			emIf
		}{},
		struct {
			*em1
			EmIf
		}{},
		struct {
			*em1
			A int
			EmIf
		}{},
		struct {
			*em1
			EmIf `json:"a"`
		}{},
		struct {
			*em1
			emE
		}{},
		struct {
			*em1
			*emE
		}{},
		struct {
			em2
			em1
		}{},
		struct {
			em2
			*em1
		}{},
		struct {
			em2
			A int
			*em1
		}{},
		struct {
			em2
			*em1 `json:"a"`
		}{},
		struct {
			em2
			em3
		}{},
		struct {
			em2
			*em3
		}{},
		struct {
			em2
			A int
			*em3
		}{},
		struct {
			em2
			*em3 `json:"a"`
		}{},
		struct {
			em2
			em4
		}{},
		struct {
			em2
			em5
		}{},
		struct {
			em2
			*em5
		}{},
		struct {
			em2
			A int
			*em5
		}{},
		struct {
			em2
			*em5 `json:"a"`
		}{},
		struct {
			em2
			em6
		}{},
		struct {
			em2
			em7
		}{},
		struct {
			em2
			*em7
		}{},
		struct {
			em2
			A int
			*em7
		}{},
		struct {
			em2
			*em7 `json:"a"`
		}{},
		struct {
			em2
			Em8
		}{},
		struct {
			em2
			*Em8
		}{},
		struct {
			em2
			Em9
		}{},
		struct {
			em2
			A int
			Em9
		}{},
		struct {
			em2
			Em9 `json:"a"`
		}{},
		struct {
			em2
			*Em9
		}{},
		struct {
			em2
			EmR
		}{},
		struct {
			em2
			*EmR
		}{},
		struct {
			em2
			A int
			*EmR
		}{},
		struct {
			em2
			*EmR `json:"a"`
		}{},
		struct {
			em2
			emP
		}{},
		struct {
			em2
			emInt
		}{},
		struct {
			em2
			*emInt
		}{},
		struct {
			em2
			A int
			*emInt
		}{},
		struct {
			em2
			*emInt `json:"a"`
		}{},
		struct {
			em2
			EmInt
		}{},
		struct {
			em2
			*EmInt
		}{},
		struct {
			em2
			emMap
		}{},
		struct {
			em2
			A int
			emMap
		}{},
		struct {
			em2
			emMap `json:"a"`
		}{},
		struct {
			em2
			EmMap
		}{},
		struct {
			em2
			EmSl
		}{},
		struct {
			em2
			emIf
		}{},
		struct {
			em2
			A int
			emIf
		}{},
		struct {
			em2
			emIf `json:"a"`
		}{},
		struct {
			em2
			EmIf
		}{},
		struct {
			em2
			emE
		}{},
		struct {
			em2
			*emE
		}{},
		struct {
			em2
			A int
			*emE
		}{},
		struct {
			em2
			*emE `json:"a"`
		}{},
		struct {
			em3
			em1
		}{},
		struct {
			em3
			A int
			em1
		}{},
		struct {
			em3
			em1 `json:"a"`
		}{},
		struct {
			em3
			*em1
		}{},
		struct {
			em3
			em2
		}{},
		struct {
			em3
			em4
		}{},
		struct {
			em3
			em5
		}{},
		struct {
			em3
			A int
			em5
		}{},
		struct {
			em3
			em5 `json:"a"`
		}{},
		struct {
			em3
			*em5
		}{},
		struct {
			em3
			em6
		}{},
		struct {
			em3
			em7
		}{},
		struct {
			em3
			A int
			em7
		}{},
		struct {
			em3
			em7 `json:"a"`
		}{},
		struct {
			em3
			*em7
		}{},
		struct {
			em3
			Em8
		}{},
		struct {
			em3
			*Em8
		}{},
		struct {
			em3
			A int
			*Em8
		}{},
		struct {
			em3
			*Em8 `json:"a"`
		}{},
		struct {
			em3
			Em9
		}{},
		struct {
			em3
			*Em9
		}{},
		struct {
			em3
			EmR
		}{},
		struct {
			em3
			A int
			EmR
		}{},
		struct {
			em3
			EmR `json:"a"`
		}{},
		struct {
			em3
			*EmR
		}{},
		struct {
			em3
			emP
		}{},
		struct {
			em3
			emInt
		}{},
		struct {
			em3
			A int
			emInt
		}{},
		struct {
			em3
			emInt `json:"a"`
		}{},
		struct {
			em3
			*emInt
		}{},
		struct {
			em3
			EmInt
		}{},
		struct {
			em3
			*EmInt
		}{},
		struct {
			em3
			A int
			*EmInt
		}{},
		struct {
			em3
			*EmInt `json:"a"`
		}{},
		struct {
			em3
			emMap
		}{},
		struct {
			em3
			EmMap
		}{},
		struct {
			em3
			EmSl
		}{},
		struct {
			em3
			A int
			EmSl
		}{},
		struct {
			em3
			EmSl `json:"a"`
		}{},
		struct {
			em3
			emIf
		}{},
		struct {
			em3
			EmIf
		}{},
		struct {
			em3
			emE
		}{},
		struct {
			em3
			A int
			emE
		}{},
		struct {
			em3
			emE `json:"a"`
		}{},
		struct {
			em3
			*emE
		}{},
		struct {
			*em3
			em1
		}{},
		struct {
			*em3
			*em1
		}{},
		struct {
			*em3
			em2
		}{},
		struct {
			*em3
			A int
			em2
		}{},
		struct {
			*em3
			em2 `json:"a"`
		}{},
		struct {
			*em3
			em4
		}{},
		struct {
			*em3
			A int
			em4
		}{},
		struct {
			*em3
			em4 `json:"a"`
		}{},
		struct {
			*em3
			em5
		}{},
		struct {
			*em3
			*em5
		}{},
		struct {
			*em3
			em6
		}{},
		struct {
			*em3
			A int
			em6
		}{},
		struct {
			*em3
			em6 `json:"a"`
		}{},
		struct {
			*em3
			em7
		}{},
		struct {
			*em3
			*em7
		}{},
		struct {
			*em3
			Em8
		}{},
		struct {
			*em3
			A int
			Em8
		}{},
		struct {
			*em3
			Em8 `json:"a"`
		}{},
		struct {
			*em3
			*Em8
		}{},
		struct {
			*em3
			Em9
		}{},
		struct {
			*em3
			*Em9
		}{},
		struct {
			*em3
			A int
			*Em9
		}{},
		struct {
			*em3
			*Em9 `json:"a"`
		}{},
		struct {
			*em3
			EmR
		}{},
		struct {
			*em3
			*EmR
		}{},
		struct {
			*em3
			emP
		}{},
		struct {
			*em3
			A int
			emP
		}{},
		struct {
			*em3
			emP `json:"a"`
		}{},
		struct {
			*em3
			emInt
		}{},
		struct {
			*em3
			*emInt
		}{},
		struct {
			*em3
			EmInt
		}{},
		struct {
			*em3
			A int
			EmInt
		}{},
		struct {
			*em3
			EmInt `json:"a"`
		}{},
		struct {
			*em3
			*EmInt
		}{},
		struct {
			*em3
			emMap
		}{},
		struct {
			*em3
			EmMap
		}{},
		struct {
			*em3
			A int
			EmMap
		}{},
		struct {
			*em3
			EmMap `json:"a"`
		}{},
		struct {
			*em3
			EmSl
		}{},
		struct {
			*em3
			emIf
		}{},
		struct {
			*em3
			EmIf
		}{},
		struct {
			*em3
			A int
			EmIf
		}{},
		struct {
			*em3
			EmIf `json:"a"`
		}{},
		struct {
			*em3
			emE
		}{},
		struct {
			*em3
			*emE
		}{},
		struct {
			em4
			em1
		}{},
		struct {
			em4
			*em1
		}{},
		struct {
			em4
			A int
			*em1
		}{},
		struct {
			em4
			*em1 `json:"a"`
		}{},
		struct {
			em4
			em2
		}{},
		struct {
			em4
			em3
		}{},
		struct {
			em4
			*em3
		}{},
		struct {
			em4
			A int
			*em3
		}{},
		struct {
			em4
			*em3 `json:"a"`
		}{},
		struct {
			em4
			em5
		}{},
		struct {
			em4
			*em5
		}{},
		struct {
			em4
			A int
			*em5
		}{},
		struct {
			em4
			*em5 `json:"a"`
		}{},
		struct {
			em4
			em6
		}{},
		struct {
			em4
			em7
		}{},
		struct {
			em4
			*em7
		}{},
		struct {
			em4
			A int
			*em7
		}{},
		struct {
			em4
			*em7 `json:"a"`
		}{},
		struct {
			em4
			Em8
		}{},
		struct {
			em4
			*Em8
		}{},
		struct {
			em4
			Em9
		}{},
		struct {
			em4
			A int
			Em9
		}{},
		struct {
			em4
			Em9 `json:"a"`
		}{},
		struct {
			em4
			*Em9
		}{},
		struct {
			em4
			EmR
		}{},
		struct {
			em4
			*EmR
		}{},
		struct {
			em4
			A int
			*EmR
		}{},
		struct {
			em4
			*EmR `json:"a"`
		}{},
		struct {
			em4
			emP
		}{},
		struct {
			em4
			emInt
		}{},
		struct {
			em4
			*emInt
		}{},
		struct {
			em4
			A int
			*emInt
		}{},
		struct {
			em4
			*emInt `json:"a"`
		}{},
		struct {
			em4
			EmInt
		}{},
		struct {
			em4
			*EmInt
		}{},
		struct {
			em4
			emMap
		}{},
		struct {
			em4
			A int
			emMap
		}{},
		struct {
			em4
			emMap `json:"a"`
		}{},
		struct {
			em4
			EmMap
		}{},
		struct {
			em4
			EmSl
		}{},
		struct {
			em4
			emIf
		}{},
		struct {
			em4
			A int
			emIf
		}{},
		struct {
			em4
			emIf `json:"a"`
		}{},
		struct {
			em4
			EmIf
		}{},
		struct {
			em4
			emE
		}{},
		struct {
			em4
			*emE
		}{},
		struct {
			em4
			A int
			*emE
		}{},
		struct {
			em4
			*emE `json:"a"`
		}{},
		struct {
			em5
			em1
		}{},
		struct {
			em5
			A int
			em1
		}{},
		struct {
			em5
			em1 `json:"a"`
		}{},
		struct {
			em5
			*em1
		}{},
		struct {
			em5
			em2
		}{},
		struct {
			em5
			em3
		}{},
		struct {
			em5
			A int
			em3
		}{},
		struct {
			em5
			em3 `json:"a"`
		}{},
		struct {
			em5
			*em3
		}{},
		struct {
			em5
			em4
		}{},
		struct {
			em5
			em6
		}{},
		struct {
			em5
			em7
		}{},
		struct {
			em5
			A int
			em7
		}{},
		struct {
			em5
			em7 `json:"a"`
		}{},
		struct {
			em5
			*em7
		}{},
		struct {
			em5
			Em8
		}{},
		struct {
			em5
			*Em8
		}{},
		struct {
			em5
			A int
			*Em8
		}{},
		struct {
			em5
			*Em8 `json:"a"`
		}{},
		struct {
			em5
			Em9
		}{},
		struct {
			em5
			*Em9
		}{},
		struct {
			em5
			EmR
		}{},
		struct {
			em5
			A int
			EmR
		}{},
		struct {
			em5
			EmR `json:"a"`
		}{},
		struct {
			em5
			*EmR
		}{},
		struct {
			em5
			emP
		}{},
		struct {
			em5
			emInt
		}{},
		struct {
			em5
			A int
			emInt
		}{},
		struct {
			em5
			emInt `json:"a"`
		}{},
		struct {
			em5
			*emInt
		}{},
		struct {
			em5
			EmInt
		}{},
		struct {
			em5
			*EmInt
		}{},
		struct {
			em5
			A int
			*EmInt
		}{},
		struct {
			em5
			*EmInt `json:"a"`
		}{},
		struct {
			em5
			emMap
		}{},
		struct {
			em5
			EmMap
		}{},
		struct {
			em5
			EmSl
		}{},
		struct {
			em5
			A int
			EmSl
		}{},
		struct {
			em5
			EmSl `json:"a"`
		}{},
		struct {
			em5
			emIf
		}{},
		struct {
			em5
			EmIf
		}{},
		struct {
			em5
			emE
		}{},
		struct {
			em5
			A int
			emE
		}{},
		struct {
			em5
			emE `json:"a"`
		}{},
		struct {
			em5
			*emE
		}{},
		struct {
			*em5
			em1
		}{},
		struct {
			*em5
			*em1
		}{},
		struct {
			*em5
			em2
		}{},
		struct {
			*em5
			A int
			em2
		}{},
		struct {
			*em5
			em2 `json:"a"`
		}{},
		struct {
			*em5
			em3
		}{},
		struct {
			*em5
			*em3
		}{},
		struct {
			*em5
			em4
		}{},
		struct {
			*em5
			A int
			em4
		}{},
		struct {
			*em5
			em4 `json:"a"`
		}{},
		struct {
			*em5
			em6
		}{},
		struct {
			*em5
			A int
			em6
		}{},
		struct {
			*em5
			em6 `json:"a"`
		}{},
		struct {
			*em5
			em7
		}{},
		struct {
			*em5
			*em7
		}{},
		struct {
			*em5
			Em8
		}{},
		struct {
			*em5
			A int
			Em8
		}{},
		struct {
			*em5
			Em8 `json:"a"`
		}{},
		struct {
			*em5
			*Em8
		}{},
		struct {
			*em5
			Em9
		}{},
		struct {
			*em5
			*Em9
		}{},
		struct {
			*em5
			A int
			*Em9
		}{},
		struct {
			*em5
			*Em9 `json:"a"`
		}{},
		struct {
			*em5
			EmR
		}{},
		struct {
			*em5
			*EmR
		}{},
		struct {
			*em5
			emP
		}{},
		struct {
			*em5
			A int
			emP
		}{},
		struct {
			*em5
			emP `json:"a"`
		}{},
		struct {
			*em5
			emInt
		}{},
		struct {
			*em5
			*emInt
		}{},
		struct {
			*em5
			EmInt
		}{},
		struct {
			*em5
			A int
			EmInt
		}{},
		struct {
			*em5
			EmInt `json:"a"`
		}{},
		struct {
			*em5
			*EmInt
		}{},
		struct {
			*em5
			emMap
		}{},
		struct {
			*em5
			EmMap
		}{},
		struct {
			*em5
			A int
			EmMap
		}{},
		struct {
			*em5
			EmMap `json:"a"`
		}{},
		struct {
			*em5
			EmSl
		}{},
		struct {
			*em5
			emIf
		}{},
		struct {
			*em5
			EmIf
		}{},
		struct {
			*em5
			A int
			EmIf
		}{},
		struct {
			*em5
			EmIf `json:"a"`
		}{},
		struct {
			*em5
			emE
		}{},
		struct {
			*em5
			*emE
		}{},
		struct {
			em6
			em1
		}{},
		struct {
			em6
			*em1
		}{},
		struct {
			em6
			A int
			*em1
		}{},
		struct {
			em6
			*em1 `json:"a"`
		}{},
		struct {
			em6
			em2
		}{},
		struct {
			em6
			em3
		}{},
		struct {
			em6
			*em3
		}{},
		struct {
			em6
			A int
			*em3
		}{},
		struct {
			em6
			*em3 `json:"a"`
		}{},
		struct {
			em6
			em4
		}{},
		struct {
			em6
			em5
		}{},
		struct {
			em6
			*em5
		}{},
		struct {
			em6
			A int
			*em5
		}{},
		struct {
			em6
			*em5 `json:"a"`
		}{},
		struct {
			em6
			em7
		}{},
		struct {
			em6
			*em7
		}{},
		struct {
			em6
			A int
			*em7
		}{},
		struct {
			em6
			*em7 `json:"a"`
		}{},
		struct {
			em6
			Em8
		}{},
		struct {
			em6
			*Em8
		}{},
		struct {
			em6
			Em9
		}{},
		struct {
			em6
			A int
			Em9
		}{},
		struct {
			em6
			Em9 `json:"a"`
		}{},
		struct {
			em6
			*Em9
		}{},
		struct {
			em6
			EmR
		}{},
		struct {
			em6
			*EmR
		}{},
		struct {
			em6
			A int
			*EmR
		}{},
		struct {
			em6
			*EmR `json:"a"`
		}{},
		struct {
			em6
			emP
		}{},
		struct {
			em6
			emInt
		}{},
		struct {
			em6
			*emInt
		}{},
		struct {
			em6
			A int
			*emInt
		}{},
		struct {
			em6
			*emInt `json:"a"`
		}{},
		struct {
			em6
			EmInt
		}{},
		struct {
			em6
			*EmInt
		}{},
		struct {
			em6
			emMap
		}{},
		struct {
			em6
			A int
			emMap
		}{},
		struct {
			em6
			emMap `json:"a"`
		}{},
		struct {
			em6
			EmMap
		}{},
		struct {
			em6
			EmSl
		}{},
		struct {
			em6
			emIf
		}{},
		struct {
			em6
			A int
			emIf
		}{},
		struct {
			em6
			emIf `json:"a"`
		}{},
		struct {
			em6
			EmIf
		}{},
		struct {
			em6
			emE
		}{},
		struct {
			em6
			*emE
		}{},
		struct {
			em6
			A int
			*emE
		}{},
		struct {
			em6
			*emE `json:"a"`
		}{},
		struct {
			em7
			em1
		}{},
		struct {
			em7
			A int
			em1
		}{},
		struct {
			em7
			em1 `json:"a"`
		}{},
		struct {
			em7
			*em1
		}{},
		struct {
			em7
			em2
		}{},
		struct {
			em7
			em3
		}{},
		struct {
			em7
			A int
			em3
		}{},
		struct {
			em7
			em3 `json:"a"`
		}{},
		struct {
			em7
			*em3
		}{},
		struct {
			em7
			em4
		}{},
		struct {
			em7
			em5
		}{},
		struct {
			em7
			A int
			em5
		}{},
		struct {
			em7
			em5 `json:"a"`
		}{},
		struct {
			em7
			*em5
		}{},
		struct {
			em7
			em6
		}{},
		struct {
			em7
			Em8
		}{},
		struct {
			em7
			*Em8
		}{},
		struct {
			em7
			A int
			*Em8
		}{},
		struct {
			em7
			*Em8 `json:"a"`
		}{},
		struct {
			em7
			Em9
		}{},
		struct {
			em7
			*Em9
		}{},
		struct {
			em7
			EmR
		}{},
		struct {
			em7
			A int
			EmR
		}{},
		struct {
			em7
			EmR `json:"a"`
		}{},
		struct {
			em7
			*EmR
		}{},
		struct {
			em7
			emP
		}{},
		struct {
			em7
			emInt
		}{},
		struct {
			em7
			A int
			emInt
		}{},
		struct {
			em7
			emInt `json:"a"`
		}{},
		struct {
			em7
			*emInt
		}{},
		struct {
			em7
			EmInt
		}{},
		struct {
			em7
			*EmInt
		}{},
		struct {
			em7
			A int
			*EmInt
		}{},
		struct {
			em7
			*EmInt `json:"a"`
		}{},
		struct {
			em7
			emMap
		}{},
		struct {
			em7
			EmMap
		}{},
		struct {
			em7
			EmSl
		}{},
		struct {
			em7
			A int
			EmSl
		}{},
		struct {
			em7
			EmSl `json:"a"`
		}{},
		struct {
			em7
			emIf
		}{},
		struct {
			em7
			EmIf
		}{},
		struct {
			em7
			emE
		}{},
		struct {
			em7
			A int
			emE
		}{},
		struct {
			em7
			emE `json:"a"`
		}{},
		struct {
			em7
			*emE
		}{},
		struct {
			*em7
			em1
		}{},
		struct {
			*em7
			*em1
		}{},
		struct {
			*em7
			em2
		}{},
		struct {
			*em7
			A int
			em2
		}{},
		struct {
			*em7
			em2 `json:"a"`
		}{},
		struct {
			*em7
			em3
		}{},
		struct {
			*em7
			*em3
		}{},
		struct {
			*em7
			em4
		}{},
		struct {
			*em7
			A int
			em4
		}{},
		struct {
			*em7
			em4 `json:"a"`
		}{},
		struct {
			*em7
			em5
		}{},
		struct {
			*em7
			*em5
		}{},
		struct {
			*em7
			em6
		}{},
		struct {
			*em7
			A int
			em6
		}{},
		struct {
			*em7
			em6 `json:"a"`
		}{},
		struct {
			*em7
			Em8
		}{},
		struct {
			*em7
			A int
			Em8
		}{},
		struct {
			*em7
			Em8 `json:"a"`
		}{},
		struct {
			*em7
			*Em8
		}{},
		struct {
			*em7
			Em9
		}{},
		struct {
			*em7
			*Em9
		}{},
		struct {
			*em7
			A int
			*Em9
		}{},
		struct {
			*em7
			*Em9 `json:"a"`
		}{},
		struct {
			*em7
			EmR
		}{},
		struct {
			*em7
			*EmR
		}{},
		struct {
			*em7
			emP
		}{},
		struct {
			*em7
			A int
			emP
		}{},
		struct {
			*em7
			emP `json:"a"`
		}{},
		struct {
			*em7
			emInt
		}{},
		struct {
			*em7
			*emInt
		}{},
		struct {
			*em7
			EmInt
		}{},
		struct {
			*em7
			A int
			EmInt
		}{},
		struct {
			*em7
			EmInt `json:"a"`
		}{},
		struct {
			*em7
			*EmInt
		}{},
		struct {
			*em7
			emMap
		}{},
		struct {
			*em7
			EmMap
		}{},
		struct {
			*em7
			A int
			EmMap
		}{},
		struct {
			*em7
			EmMap `json:"a"`
		}{},
		struct {
			*em7
			EmSl
		}{},
		struct {
			*em7
			emIf
		}{},
		struct {
			*em7
			EmIf
		}{},
		struct {
			*em7
			A int
			EmIf
		}{},
		struct {
			*em7
			EmIf `json:"a"`
		}{},
		struct {
			*em7
			emE
		}{},
		struct {
			*em7
			*emE
		}{},
		struct {
			Em8
			em1
		}{},
		struct {
			Em8
			*em1
		}{},
		struct {
			Em8
			A int
			*em1
		}{},
		struct {
			Em8
			*em1 `json:"a"`
		}{},
		struct {
			Em8
			em2
		}{},
		struct {
			Em8
			em3
		}{},
		struct {
			Em8
			*em3
		}{},
		struct {
			Em8
			A int
			*em3
		}{},
		struct {
			Em8
			*em3 `json:"a"`
		}{},
		struct {
			Em8
			em4
		}{},
		struct {
			Em8
			em5
		}{},
		struct {
			Em8
			*em5
		}{},
		struct {
			Em8
			A int
			*em5
		}{},
		struct {
			Em8
			*em5 `json:"a"`
		}{},
		struct {
			Em8
			em6
		}{},
		struct {
			Em8
			em7
		}{},
		struct {
			Em8
			*em7
		}{},
		struct {
			Em8
			A int
			*em7
		}{},
		struct {
			Em8
			*em7 `json:"a"`
		}{},
		struct {
			Em8
			Em9
		}{},
		struct {
			Em8
			A int
			Em9
		}{},
		struct {
			Em8
			Em9 `json:"a"`
		}{},
		struct {
			Em8
			*Em9
		}{},
		struct {
			Em8
			EmR
		}{},
		struct {
			Em8
			*EmR
		}{},
		struct {
			Em8
			A int
			*EmR
		}{},
		struct {
			Em8
			*EmR `json:"a"`
		}{},
		struct {
			Em8
			emP
		}{},
		struct {
			Em8
			emInt
		}{},
		struct {
			Em8
			*emInt
		}{},
		struct {
			Em8
			A int
			*emInt
		}{},
		struct {
			Em8
			*emInt `json:"a"`
		}{},
		struct {
			Em8
			EmInt
		}{},
		struct {
			Em8
			*EmInt
		}{},
		struct {
			Em8
			emMap
		}{},
		struct {
			Em8
			A int
			emMap
		}{},
		struct {
			Em8
			emMap `json:"a"`
		}{},
		struct {
			Em8
			EmMap
		}{},
		struct {
			Em8
			EmSl
		}{},
		struct {
			Em8
			emIf
		}{},
		struct {
			Em8
			A int
			emIf
		}{},
		struct {
			Em8
			emIf `json:"a"`
		}{},
		struct {
			Em8
			EmIf
		}{},
		struct {
			Em8
			emE
		}{},
		struct {
			Em8
			*emE
		}{},
		struct {
			Em8
			A int
			*emE
		}{},
		struct {
			Em8
			*emE `json:"a"`
		}{},
		struct {
			*Em8
			em1
		}{},
		struct {
			*Em8
			A int
			em1
		}{},
		struct {
			*Em8
			em1 `json:"a"`
		}{},
		struct {
			*Em8
			*em1
		}{},
		struct {
			*Em8
			em2
		}{},
		struct {
			*Em8
			em3
		}{},
		struct {
			*Em8
			A int
			em3
		}{},
		struct {
			*Em8
			em3 `json:"a"`
		}{},
		struct {
			*Em8
			*em3
		}{},
		struct {
			*Em8
			em4
		}{},
		struct {
			*Em8
			em5
		}{},
		struct {
			*Em8
			A int
			em5
		}{},
		struct {
			*Em8
			em5 `json:"a"`
		}{},
		struct {
			*Em8
			*em5
		}{},
		struct {
			*Em8
			em6
		}{},
		struct {
			*Em8
			em7
		}{},
		struct {
			*Em8
			A int
			em7
		}{},
		struct {
			*Em8
			em7 `json:"a"`
		}{},
		struct {
			*Em8
			*em7
		}{},
		struct {
			*Em8
			Em9
		}{},
		struct {
			*Em8
			*Em9
		}{},
		struct {
			*Em8
			EmR
		}{},
		struct {
			*Em8
			A int
			EmR
		}{},
		struct {
			*Em8
			EmR `json:"a"`
		}{},
		struct {
			*Em8
			*EmR
		}{},
		struct {
			*Em8
			emP
		}{},
		struct {
			*Em8
			emInt
		}{},
		struct {
			*Em8
			A int
			emInt
		}{},
		struct {
			*Em8
			emInt `json:"a"`
		}{},
		struct {
			*Em8
			*emInt
		}{},
		struct {
			*Em8
			EmInt
		}{},
		struct {
			*Em8
			*EmInt
		}{},
		struct {
			*Em8
			A int
			*EmInt
		}{},
		struct {
			*Em8
			*EmInt `json:"a"`
		}{},
		struct {
			*Em8
			emMap
		}{},
		struct {
			*Em8
			EmMap
		}{},
		struct {
			*Em8
			EmSl
		}{},
		struct {
			*Em8
			A int
			EmSl
		}{},
		struct {
			*Em8
			EmSl `json:"a"`
		}{},
		struct {
			*Em8
			emIf
		}{},
		struct {
			*Em8
			EmIf
		}{},
		struct {
			*Em8
			emE
		}{},
		struct {
			*Em8
			A int
			emE
		}{},
		struct {
			*Em8
			emE `json:"a"`
		}{},
		struct {
			*Em8
			*emE
		}{},
		struct {
			Em9
			em1
		}{},
		struct {
			Em9
			*em1
		}{},
		struct {
			Em9
			em2
		}{},
		struct {
			Em9
			A int
			em2
		}{},
		struct {
			Em9
			em2 `json:"a"`
		}{},
		struct {
			Em9
			em3
		}{},
		struct {
			Em9
			*em3
		}{},
		struct {
			Em9
			em4
		}{},
		struct {
			Em9
			A int
			em4
		}{},
		struct {
			Em9
			em4 `json:"a"`
		}{},
		struct {
			Em9
			em5
		}{},
		struct {
			Em9
			*em5
		}{},
		struct {
			Em9
			em6
		}{},
		struct {
			Em9
			A int
			em6
		}{},
		struct {
			Em9
			em6 `json:"a"`
		}{},
		struct {
			Em9
			em7
		}{},
		struct {
			Em9
			*em7
		}{},
		struct {
			Em9
			Em8
		}{},
		struct {
			Em9
			A int
			Em8
		}{},
		struct {
			Em9
			Em8 `json:"a"`
		}{},
		struct {
			Em9
			*Em8
		}{},
		struct {
			Em9
			EmR
		}{},
		struct {
			Em9
			*EmR
		}{},
		struct {
			Em9
			emP
		}{},
		struct {
			Em9
			A int
			emP
		}{},
		struct {
			Em9
			emP `json:"a"`
		}{},
		struct {
			Em9
			emInt
		}{},
		struct {
			Em9
			*emInt
		}{},
		struct {
			Em9
			EmInt
		}{},
		struct {
			Em9
			A int
			EmInt
		}{},
		struct {
			Em9
			EmInt `json:"a"`
		}{},
		struct {
			Em9
			*EmInt
		}{},
		struct {
			Em9
			emMap
		}{},
		struct {
			Em9
			EmMap
		}{},
		struct {
			Em9
			A int
			EmMap
		}{},
		struct {
			Em9
			EmMap `json:"a"`
		}{},
		struct {
			Em9
			EmSl
		}{},
		struct {
			Em9
			emIf
		}{},
		struct {
			Em9
			EmIf
		}{},
		struct {
			Em9
			A int
			EmIf
		}{},
		struct {
			Em9
			EmIf `json:"a"`
		}{},
		struct {
			Em9
			emE
		}{},
		struct {
			Em9
			*emE
		}{},
		struct {
			*Em9
			em1
		}{},
		struct {
			*Em9
			*em1
		}{},
		struct {
			*Em9
			A int
			*em1
		}{},
		struct {
			*Em9
			*em1 `json:"a"`
		}{},
		struct {
			*Em9
			em2
		}{},
		struct {
			*Em9
			em3
		}{},
		struct {
			*Em9
			*em3
		}{},
		struct {
			*Em9
			A int
			*em3
		}{},
		struct {
			*Em9
			*em3 `json:"a"`
		}{},
		struct {
			*Em9
			em4
		}{},
		struct {
			*Em9
			em5
		}{},
		struct {
			*Em9
			*em5
		}{},
		struct {
			*Em9
			A int
			*em5
		}{},
		struct {
			*Em9
			*em5 `json:"a"`
		}{},
		struct {
			*Em9
			em6
		}{},
		struct {
			*Em9
			em7
		}{},
		struct {
			*Em9
			*em7
		}{},
		struct {
			*Em9
			A int
			*em7
		}{},
		struct {
			*Em9
			*em7 `json:"a"`
		}{},
		struct {
			*Em9
			Em8
		}{},
		struct {
			*Em9
			*Em8
		}{},
		struct {
			*Em9
			EmR
		}{},
		struct {
			*Em9
			*EmR
		}{},
		struct {
			*Em9
			A int
			*EmR
		}{},
		struct {
			*Em9
			*EmR `json:"a"`
		}{},
		struct {
			*Em9
			emP
		}{},
		struct {
			*Em9
			emInt
		}{},
		struct {
			*Em9
			*emInt
		}{},
		struct {
			*Em9
			A int
			*emInt
		}{},
		struct {
			*Em9
			*emInt `json:"a"`
		}{},
		struct {
			*Em9
			EmInt
		}{},
		struct {
			*Em9
			*EmInt
		}{},
		struct {
			*Em9
			emMap
		}{},
		struct {
			*Em9
			A int
			emMap
		}{},
		struct {
			*Em9
			emMap `json:"a"`
		}{},
		struct {
			*Em9
			EmMap
		}{},
		struct {
			*Em9
			EmSl
		}{},
		struct {
			*Em9
			emIf
		}{},
		struct {
			*Em9
			A int
			emIf
		}{},
		struct {
			*Em9
			emIf `json:"a"`
		}{},
		struct {
			*Em9
			EmIf
		}{},
		struct {
			*Em9
			emE
		}{},
		struct {
			*Em9
			*emE
		}{},
		struct {
			*Em9
			A int
			*emE
		}{},
		struct {
			*Em9
			*emE `json:"a"`
		}{},
		struct {
			EmR
			em1
		}{},
		struct {
			EmR
			A int
			em1
		}{},
		struct {
			EmR
			em1 `json:"a"`
		}{},
		struct {
			EmR
			*em1
		}{},
		struct {
			EmR
			em2
		}{},
		struct {
			EmR
			em3
		}{},
		struct {
			EmR
			A int
			em3
		}{},
		struct {
			EmR
			em3 `json:"a"`
		}{},
		struct {
			EmR
			*em3
		}{},
		struct {
			EmR
			em4
		}{},
		struct {
			EmR
			em5
		}{},
		struct {
			EmR
			A int
			em5
		}{},
		struct {
			EmR
			em5 `json:"a"`
		}{},
		struct {
			EmR
			*em5
		}{},
		struct {
			EmR
			em6
		}{},
		struct {
			EmR
			em7
		}{},
		struct {
			EmR
			A int
			em7
		}{},
		struct {
			EmR
			em7 `json:"a"`
		}{},
		struct {
			EmR
			*em7
		}{},
		struct {
			EmR
			Em8
		}{},
		struct {
			EmR
			*Em8
		}{},
		struct {
			EmR
			A int
			*Em8
		}{},
		struct {
			EmR
			*Em8 `json:"a"`
		}{},
		struct {
			EmR
			Em9
		}{},
		struct {
			EmR
			*Em9
		}{},
		struct {
			EmR
			emP
		}{},
		struct {
			EmR
			emInt
		}{},
		struct {
			EmR
			A int
			emInt
		}{},
		struct {
			EmR
			emInt `json:"a"`
		}{},
		struct {
			EmR
			*emInt
		}{},
		struct {
			EmR
			EmInt
		}{},
		struct {
			EmR
			*EmInt
		}{},
		struct {
			EmR
			A int
			*EmInt
		}{},
		struct {
			EmR
			*EmInt `json:"a"`
		}{},
		struct {
			EmR
			emMap
		}{},
		struct {
			EmR
			EmMap
		}{},
		struct {
			EmR
			EmSl
		}{},
		struct {
			EmR
			A int
			EmSl
		}{},
		struct {
			EmR
			EmSl `json:"a"`
		}{},
		struct {
			EmR
			emIf
		}{},
		struct {
			EmR
			EmIf
		}{},
		struct {
			EmR
			emE
		}{},
		struct {
			EmR
			A int
			emE
		}{},
		struct {
			EmR
			emE `json:"a"`
		}{},
		struct {
			EmR
			*emE
		}{},
		struct {
			*EmR
			em1
		}{},
		struct {
			*EmR
			*em1
		}{},
		struct {
			*EmR
			em2
		}{},
		struct {
			*EmR
			A int
			em2
		}{},
		struct {
			*EmR
			em2 `json:"a"`
		}{},
		struct {
			*EmR
			em3
		}{},
		struct {
			*EmR
			*em3
		}{},
		struct {
			*EmR
			em4
		}{},
		struct {
			*EmR
			A int
			em4
		}{},
		struct {
			*EmR
			em4 `json:"a"`
		}{},
		struct {
			*EmR
			em5
		}{},
		struct {
			*EmR
			*em5
		}{},
		struct {
			*EmR
			em6
		}{},
		struct {
			*EmR
			A int
			em6
		}{},
		struct {
			*EmR
			em6 `json:"a"`
		}{},
		struct {
			*EmR
			em7
		}{},
		struct {
			*EmR
			*em7
		}{},
		struct {
			*EmR
			Em8
		}{},
		struct {
			*EmR
			A int
			Em8
		}{},
		struct {
			*EmR
			Em8 `json:"a"`
		}{},
		struct {
			*EmR
			*Em8
		}{},
		struct {
			*EmR
			Em9
		}{},
		struct {
			*EmR
			*Em9
		}{},
		struct {
			*EmR
			A int
			*Em9
		}{},
		struct {
			*EmR
			*Em9 `json:"a"`
		}{},
		struct {
			*EmR
			emP
		}{},
		struct {
			*EmR
			A int
			emP
		}{},
		struct {
			*EmR
			emP `json:"a"`
		}{},
		struct {
			*EmR
			emInt
		}{},
		struct {
			*EmR
			*emInt
		}{},
		struct {
			*EmR
			EmInt
		}{},
		struct {
			*EmR
			A int
			EmInt
		}{},
		struct {
			*EmR
			EmInt `json:"a"`
		}{},
		struct {
			*EmR
			*EmInt
		}{},
		struct {
			*EmR
			emMap
		}{},
		struct {
			*EmR
			EmMap
		}{},
		struct {
			*EmR
			A int
			EmMap
		}{},
		struct {
			*EmR
			EmMap `json:"a"`
		}{},
		struct {
			*EmR
			EmSl
		}{},
		struct {
			*EmR
			emIf
		}{},
		struct {
			*EmR
			EmIf
		}{},
		struct {
			*EmR
			A int
			EmIf
		}{},
		struct {
			*EmR
			EmIf `json:"a"`
		}{},
		struct {
			*EmR
			emE
		}{},
		struct {
			*EmR
			*emE
		}{},
		struct {
			emP
			em1
		}{},
		struct {
			emP
			*em1
		}{},
		struct {
			emP
			A int
			*em1
		}{},
		struct {
			emP
			*em1 `json:"a"`
		}{},
		struct {
			emP
			em2
		}{},
		struct {
			emP
			em3
		}{},
		struct {
			emP
			*em3
		}{},
		struct {
			emP
			A int
			*em3
		}{},
		struct {
			emP
			*em3 `json:"a"`
		}{},
		struct {
			emP
			em4
		}{},
		struct {
			emP
			em5
		}{},
		struct {
			emP
			*em5
		}{},
		struct {
			emP
			A int
			*em5
		}{},
		struct {
			emP
			*em5 `json:"a"`
		}{},
		struct {
			emP
			em6
		}{},
		struct {
			emP
			em7
		}{},
		struct {
			emP
			*em7
		}{},
		struct {
			emP
			A int
			*em7
		}{},
		struct {
			emP
			*em7 `json:"a"`
		}{},
		struct {
			emP
			Em8
		}{},
		struct {
			emP
			*Em8
		}{},
		struct {
			emP
			Em9
		}{},
		struct {
			emP
			A int
			Em9
		}{},
		struct {
			emP
			Em9 `json:"a"`
		}{},
		struct {
			emP
			*Em9
		}{},
		struct {
			emP
			EmR
		}{},
		struct {
			emP
			*EmR
		}{},
		struct {
			emP
			A int
			*EmR
		}{},
		struct {
			emP
			*EmR `json:"a"`
		}{},
		struct {
			emP
			emInt
		}{},
		struct {
			emP
			*emInt
		}{},
		struct {
			emP
			A int
			*emInt
		}{},
		struct {
			emP
			*emInt `json:"a"`
		}{},
		struct {
			emP
			EmInt
		}{},
		struct {
			emP
			*EmInt
		}{},
		struct {
			emP
			emMap
		}{},
		struct {
			emP
			A int
			emMap
		}{},
		struct {
			emP
			emMap `json:"a"`
		}{},
		struct {
			emP
			EmMap
		}{},
		struct {
			emP
			EmSl
		}{},
		struct {
			emP
			emIf
		}{},
		struct {
			emP
			A int
			emIf
		}{},
		struct {
			emP
			emIf `json:"a"`
		}{},
		struct {
			emP
			EmIf
		}{},
		struct {
			emP
			emE
		}{},
		struct {
			emP
			*emE
		}{},
		struct {
			emP
			A int
			*emE
		}{},
		struct {
			emP
			*emE `json:"a"`
		}{},
		struct {
			emInt
			em1
		}{},
		struct {
			emInt
			A int
			em1
		}{},
		struct {
			emInt
			em1 `json:"a"`
		}{},
		struct {
			emInt
			*em1
		}{},
		struct {
			emInt
			em2
		}{},
		struct {
			emInt
			em3
		}{},
		struct {
			emInt
			A int
			em3
		}{},
		struct {
			emInt
			em3 `json:"a"`
		}{},
		struct {
			emInt
			*em3
		}{},
		struct {
			emInt
			em4
		}{},
		struct {
			emInt
			em5
		}{},
		struct {
			emInt
			A int
			em5
		}{},
		struct {
			emInt
			em5 `json:"a"`
		}{},
		struct {
			emInt
			*em5
		}{},
		struct {
			emInt
			em6
		}{},
		struct {
			emInt
			em7
		}{},
		struct {
			emInt
			A int
			em7
		}{},
		struct {
			emInt
			em7 `json:"a"`
		}{},
		struct {
			emInt
			*em7
		}{},
		struct {
			emInt
			Em8
		}{},
		struct {
			emInt
			*Em8
		}{},
		struct {
			emInt
			A int
			*Em8
		}{},
		struct {
			emInt
			*Em8 `json:"a"`
		}{},
		struct {
			emInt
			Em9
		}{},
		struct {
			emInt
			*Em9
		}{},
		struct {
			emInt
			EmR
		}{},
		struct {
			emInt
			A int
			EmR
		}{},
		struct {
			emInt
			EmR `json:"a"`
		}{},
		struct {
			emInt
			*EmR
		}{},
		struct {
			emInt
			emP
		}{},
		struct {
			emInt
			EmInt
		}{},
		struct {
			emInt
			*EmInt
		}{},
		struct {
			emInt
			A int
			*EmInt
		}{},
		struct {
			emInt
			*EmInt `json:"a"`
		}{},
		struct {
			emInt
			emMap
		}{},
		struct {
			emInt
			EmMap
		}{},
		struct {
			emInt
			EmSl
		}{},
		struct {
			emInt
			A int
			EmSl
		}{},
		struct {
			emInt
			EmSl `json:"a"`
		}{},
		struct {
			emInt
			emIf
		}{},
		struct {
			emInt
			EmIf
		}{},
		struct {
			emInt
			emE
		}{},
		struct {
			emInt
			A int
			emE
		}{},
		struct {
			emInt
			emE `json:"a"`
		}{},
		struct {
			emInt
			*emE
		}{},
		struct {
			*emInt
			em1
		}{},
		struct {
			*emInt
			*em1
		}{},
		struct {
			*emInt
			em2
		}{},
		struct {
			*emInt
			A int
			em2
		}{},
		struct {
			*emInt
			em2 `json:"a"`
		}{},
		struct {
			*emInt
			em3
		}{},
		struct {
			*emInt
			*em3
		}{},
		struct {
			*emInt
			em4
		}{},
		struct {
			*emInt
			A int
			em4
		}{},
		struct {
			*emInt
			em4 `json:"a"`
		}{},
		struct {
			*emInt
			em5
		}{},
		struct {
			*emInt
			*em5
		}{},
		struct {
			*emInt
			em6
		}{},
		struct {
			*emInt
			A int
			em6
		}{},
		struct {
			*emInt
			em6 `json:"a"`
		}{},
		struct {
			*emInt
			em7
		}{},
		struct {
			*emInt
			*em7
		}{},
		struct {
			*emInt
			Em8
		}{},
		struct {
			*emInt
			A int
			Em8
		}{},
		struct {
			*emInt
			Em8 `json:"a"`
		}{},
		struct {
			*emInt
			*Em8
		}{},
		struct {
			*emInt
			Em9
		}{},
		struct {
			*emInt
			*Em9
		}{},
		struct {
			*emInt
			A int
			*Em9
		}{},
		struct {
			*emInt
			*Em9 `json:"a"`
		}{},
		struct {
			*emInt
			EmR
		}{},
		struct {
			*emInt
			*EmR
		}{},
		struct {
			*emInt
			emP
		}{},
		struct {
			*emInt
			A int
			emP
		}{},
		struct {
			*emInt
			emP `json:"a"`
		}{},
		struct {
			*emInt
			EmInt
		}{},
		struct {
			*emInt
			A int
			EmInt
		}{},
		struct {
			*emInt
			EmInt `json:"a"`
		}{},
		struct {
			*emInt
			*EmInt
		}{},
		struct {
			*emInt
			emMap
		}{},
		struct {
			*emInt
			EmMap
		}{},
		struct {
			*emInt
			A int
			EmMap
		}{},
		struct {
			*emInt
			EmMap `json:"a"`
		}{},
		struct {
			*emInt
			EmSl
		}{},
		struct {
			*emInt
			emIf
		}{},
		struct {
			*emInt
			EmIf
		}{},
		struct {
			*emInt
			A int
			EmIf
		}{},
		struct {
			*emInt
			EmIf `json:"a"`
		}{},
		struct {
			*emInt
			emE
		}{},
		struct {
			*emInt
			*emE
		}{},
		struct {
			EmInt
			em1
		}{},
		struct {
			EmInt
			*em1
		}{},
		struct {
			EmInt
			A int
			*em1
		}{},
		struct {
			EmInt
			*em1 `json:"a"`
		}{},
		struct {
			EmInt
			em2
		}{},
		struct {
			EmInt
			em3
		}{},
		struct {
			EmInt
			*em3
		}{},
		struct {
			EmInt
			A int
			*em3
		}{},
		struct {
			EmInt
			*em3 `json:"a"`
		}{},
		struct {
			EmInt
			em4
		}{},
		struct {
			EmInt
			em5
		}{},
		struct {
			EmInt
			*em5
		}{},
		struct {
			EmInt
			A int
			*em5
		}{},
		struct {
			EmInt
			*em5 `json:"a"`
		}{},
		struct {
			EmInt
			em6
		}{},
		struct {
			EmInt
			em7
		}{},
		struct {
			EmInt
			*em7
		}{},
		struct {
			EmInt
			A int
			*em7
		}{},
		struct {
			EmInt
			*em7 `json:"a"`
		}{},
		struct {
			EmInt
			Em8
		}{},
		struct {
			EmInt
			*Em8
		}{},
		struct {
			EmInt
			Em9
		}{},
		struct {
			EmInt
			A int
			Em9
		}{},
		struct {
			EmInt
			Em9 `json:"a"`
		}{},
		struct {
			EmInt
			*Em9
		}{},
		struct {
			EmInt
			EmR
		}{},
		struct {
			EmInt
			*EmR
		}{},
		struct {
			EmInt
			A int
			*EmR
		}{},
		struct {
			EmInt
			*EmR `json:"a"`
		}{},
		struct {
			EmInt
			emP
		}{},
		struct {
			EmInt
			emInt
		}{},
		struct {
			EmInt
			*emInt
		}{},
		struct {
			EmInt
			A int
			*emInt
		}{},
		struct {
			EmInt
			*emInt `json:"a"`
		}{},
		struct {
			EmInt
			emMap
		}{},
		struct {
			EmInt
			A int
			emMap
		}{},
		struct {
			EmInt
			emMap `json:"a"`
		}{},
		struct {
			EmInt
			EmMap
		}{},
		struct {
			EmInt
			EmSl
		}{},
		struct {
			EmInt
			emIf
		}{},
		struct {
			EmInt
			A int
			emIf
		}{},
		struct {
			EmInt
			emIf `json:"a"`
		}{},
		struct {
			EmInt
			EmIf
		}{},
		struct {
			EmInt
			emE
		}{},
		struct {
			EmInt
			*emE
		}{},
		struct {
			EmInt
			A int
			*emE
		}{},
		struct {
			EmInt
			*emE `json:"a"`
		}{},
		struct {
			*EmInt
			em1
		}{},
		struct {
			*EmInt
			A int
			em1
		}{},
		struct {
			*EmInt
			em1 `json:"a"`
		}{},
		struct {
			*EmInt
			*em1
		}{},
		struct {
			*EmInt
			em2
		}{},
		struct {
			*EmInt
			em3
		}{},
		struct {
			*EmInt
			A int
			em3
		}{},
		struct {
			*EmInt
			em3 `json:"a"`
		}{},
		struct {
			*EmInt
			*em3
		}{},
		struct {
			*EmInt
			em4
		}{},
		struct {
			*EmInt
			em5
		}{},
		struct {
			*EmInt
			A int
			em5
		}{},
		struct {
			*EmInt
			em5 `json:"a"`
		}{},
		struct {
			*EmInt
			*em5
		}{},
		struct {
			*EmInt
			em6
		}{},
		struct {
			*EmInt
			em7
		}{},
		struct {
			*EmInt
			A int
			em7
		}{},
		struct {
			*EmInt
			em7 `json:"a"`
		}{},
		struct {
			*EmInt
			*em7
		}{},
		struct {
			*EmInt
			Em8
		}{},
		struct {
			*EmInt
			*Em8
		}{},
		struct {
			*EmInt
			A int
			*Em8
		}{},
		struct {
			*EmInt
			*Em8 `json:"a"`
		}{},
		struct {
			*EmInt
			Em9
		}{},
		struct {
			*EmInt
			*Em9
		}{},
		struct {
			*EmInt
			EmR
		}{},
		struct {
			*EmInt
			A int
			EmR
		}{},
		struct {
			*EmInt
			EmR `json:"a"`
		}{},
		struct {
			*EmInt
			*EmR
		}{},
		struct {
			*EmInt
			emP
		}{},
		struct {
			*EmInt
			emInt
		}{},
		struct {
			*EmInt
			A int
			emInt
		}{},
		struct {
			*EmInt
			emInt `json:"a"`
		}{},
		struct {
			*EmInt
			*emInt
		}{},
		struct {
			*EmInt
			emMap
		}{},
		struct {
			*EmInt
			EmMap
		}{},
		struct {
			*EmInt
			EmSl
		}{},
		struct {
			*EmInt
			A int
			EmSl
		}{},
		struct {
			*EmInt
			EmSl `json:"a"`
		}{},
		struct {
			*EmInt
			emIf
		}{},
		struct {
			*EmInt
			EmIf
		}{},
		struct {
			*EmInt
			emE
		}{},
		struct {
			*EmInt
			A int
			emE
		}{},
		struct {
			*EmInt
			emE `json:"a"`
		}{},
		struct {
			*EmInt
			*emE
		}{},
		struct {
			emMap
			em1
		}{},
		struct {
			emMap
			*em1
		}{},
		struct {
			emMap
			em2
		}{},
		struct {
			emMap
			A int
			em2
		}{},
		struct {
			emMap
			em2 `json:"a"`
		}{},
		struct {
			emMap
			em3
		}{},
		struct {
			emMap
			*em3
		}{},
		struct {
			emMap
			em4
		}{},
		struct {
			emMap
			A int
			em4
		}{},
		struct {
			emMap
			em4 `json:"a"`
		}{},
		struct {
			emMap
			em5
		}{},
		struct {
			emMap
			*em5
		}{},
		struct {
			emMap
			em6
		}{},
		struct {
			emMap
			A int
			em6
		}{},
		struct {
			emMap
			em6 `json:"a"`
		}{},
		struct {
			emMap
			em7
		}{},
		struct {
			emMap
			*em7
		}{},
		struct {
			emMap
			Em8
		}{},
		struct {
			emMap
			A int
			Em8
		}{},
		struct {
			emMap
			Em8 `json:"a"`
		}{},
		struct {
			emMap
			*Em8
		}{},
		struct {
			emMap
			Em9
		}{},
		struct {
			emMap
			*Em9
		}{},
		struct {
			emMap
			A int
			*Em9
		}{},
		struct {
			emMap
			*Em9 `json:"a"`
		}{},
		struct {
			emMap
			EmR
		}{},
		struct {
			emMap
			*EmR
		}{},
		struct {
			emMap
			emP
		}{},
		struct {
			emMap
			A int
			emP
		}{},
		struct {
			emMap
			emP `json:"a"`
		}{},
		struct {
			emMap
			emInt
		}{},
		struct {
			emMap
			*emInt
		}{},
		struct {
			emMap
			EmInt
		}{},
		struct {
			emMap
			A int
			EmInt
		}{},
		struct {
			emMap
			EmInt `json:"a"`
		}{},
		struct {
			emMap
			*EmInt
		}{},
		struct {
			emMap
			EmMap
		}{},
		struct {
			emMap
			A int
			EmMap
		}{},
		struct {
			emMap
			EmMap `json:"a"`
		}{},
		struct {
			emMap
			EmSl
		}{},
		struct {
			emMap
			emIf
		}{},
		struct {
			emMap
			EmIf
		}{},
		struct {
			emMap
			A int
			EmIf
		}{},
		struct {
			emMap
			EmIf `json:"a"`
		}{},
		struct {
			emMap
			emE
		}{},
		struct {
			emMap
			*emE
		}{},
		struct {
			EmMap
			em1
		}{},
		struct {
			EmMap
			*em1
		}{},
		struct {
			EmMap
			A int
			*em1
		}{},
		struct {
			EmMap
			*em1 `json:"a"`
		}{},
		struct {
			EmMap
			em2
		}{},
		struct {
			EmMap
			em3
		}{},
		struct {
			EmMap
			*em3
		}{},
		struct {
			EmMap
			A int
			*em3
		}{},
		struct {
			EmMap
			*em3 `json:"a"`
		}{},
		struct {
			EmMap
			em4
		}{},
		struct {
			EmMap
			em5
		}{},
		struct {
			EmMap
			*em5
		}{},
		struct {
			EmMap
			A int
			*em5
		}{},
		struct {
			EmMap
			*em5 `json:"a"`
		}{},
		struct {
			EmMap
			em6
		}{},
		struct {
			EmMap
			em7
		}{},
		struct {
			EmMap
			*em7
		}{},
		struct {
			EmMap
			A int
			*em7
		}{},
		struct {
			EmMap
			*em7 `json:"a"`
		}{},
		struct {
			EmMap
			Em8
		}{},
		struct {
			EmMap
			*Em8
		}{},
		struct {
			EmMap
			Em9
		}{},
		struct {
			EmMap
			A int
			Em9
		}{},
		struct {
			EmMap
			Em9 `json:"a"`
		}{},
		struct {
			EmMap
			*Em9
		}{},
		struct {
			EmMap
			EmR
		}{},
		struct {
			EmMap
			*EmR
		}{},
		struct {
			EmMap
			A int
			*EmR
		}{},
		struct {
			EmMap
			*EmR `json:"a"`
		}{},
		struct {
			EmMap
			emP
		}{},
		struct {
			EmMap
			emInt
		}{},
		struct {
			EmMap
			*emInt
		}{},
		struct {
			EmMap
			A int
			*emInt
		}{},
		struct {
			EmMap
			*emInt `json:"a"`
		}{},
		struct {
			EmMap
			EmInt
		}{},
		struct {
			EmMap
			*EmInt
		}{},
		struct {
			EmMap
			emMap
		}{},
		struct {
			EmMap
			A int
			emMap
		}{},
		struct {
			EmMap
			emMap `json:"a"`
		}{},
		struct {
			EmMap
			EmSl
		}{},
		struct {
			EmMap
			emIf
		}{},
		struct {
			EmMap
			A int
			emIf
		}{},
		struct {
			EmMap
			emIf `json:"a"`
		}{},
		struct {
			EmMap
			EmIf
		}{},
		struct {
			EmMap
			emE
		}{},
		struct {
			EmMap
			*emE
		}{},
		struct {
			EmMap
			A int
			*emE
		}{},
		struct {
			EmMap
			*emE `json:"a"`
		}{},
		struct {
			EmSl
			em1
		}{},
		struct {
			EmSl
			A int
			em1
		}{},
		struct {
			EmSl
			em1 `json:"a"`
		}{},
		struct {
			EmSl
			*em1
		}{},
		struct {
			EmSl
			em2
		}{},
		struct {
			EmSl
			em3
		}{},
		struct {
			EmSl
			A int
			em3
		}{},
		struct {
			EmSl
			em3 `json:"a"`
		}{},
		struct {
			EmSl
			*em3
		}{},
		struct {
			EmSl
			em4
		}{},
		struct {
			EmSl
			em5
		}{},
		struct {
			EmSl
			A int
			em5
		}{},
		struct {
			EmSl
			em5 `json:"a"`
		}{},
		struct {
			EmSl
			*em5
		}{},
		struct {
			EmSl
			em6
		}{},
		struct {
			EmSl
			em7
		}{},
		struct {
			EmSl
			A int
			em7
		}{},
		struct {
			EmSl
			em7 `json:"a"`
		}{},
		struct {
			EmSl
			*em7
		}{},
		struct {
			EmSl
			Em8
		}{},
		struct {
			EmSl
			*Em8
		}{},
		struct {
			EmSl
			A int
			*Em8
		}{},
		struct {
			EmSl
			*Em8 `json:"a"`
		}{},
		struct {
			EmSl
			Em9
		}{},
		struct {
			EmSl
			*Em9
		}{},
		struct {
			EmSl
			EmR
		}{},
		struct {
			EmSl
			A int
			EmR
		}{},
		struct {
			EmSl
			EmR `json:"a"`
		}{},
		struct {
			EmSl
			*EmR
		}{},
		struct {
			EmSl
			emP
		}{},
		struct {
			EmSl
			emInt
		}{},
		struct {
			EmSl
			A int
			emInt
		}{},
		struct {
			EmSl
			emInt `json:"a"`
		}{},
		struct {
			EmSl
			*emInt
		}{},
		struct {
			EmSl
			EmInt
		}{},
		struct {
			EmSl
			*EmInt
		}{},
		struct {
			EmSl
			A int
			*EmInt
		}{},
		struct {
			EmSl
			*EmInt `json:"a"`
		}{},
		struct {
			EmSl
			emMap
		}{},
		struct {
			EmSl
			EmMap
		}{},
		struct {
			EmSl
			emIf
		}{},
		struct {
			EmSl
			EmIf
		}{},
		struct {
			EmSl
			emE
		}{},
		struct {
			EmSl
			A int
			emE
		}{},
		struct {
			EmSl
			emE `json:"a"`
		}{},
		struct {
			EmSl
			*emE
		}{},
		struct {
			emIf
			em1
		}{},
		struct {
			emIf
			*em1
		}{},
		struct {
			emIf
			em2
		}{},
		struct {
			emIf
			A int
			em2
		}{},
		struct {
			emIf
			em2 `json:"a"`
		}{},
		struct {
			emIf
			em3
		}{},
		struct {
			emIf
			*em3
		}{},
		struct {
			emIf
			em4
		}{},
		struct {
			emIf
			A int
			em4
		}{},
		struct {
			emIf
			em4 `json:"a"`
		}{},
		struct {
			emIf
			em5
		}{},
		struct {
			emIf
			*em5
		}{},
		struct {
			emIf
			em6
		}{},
		struct {
			emIf
			A int
			em6
		}{},
		struct {
			emIf
			em6 `json:"a"`
		}{},
		struct {
			emIf
			em7
		}{},
		struct {
			emIf
			*em7
		}{},
		struct {
			emIf
			Em8
		}{},
		struct {
			emIf
			A int
			Em8
		}{},
		struct {
			emIf
			Em8 `json:"a"`
		}{},
		struct {
			emIf
			*Em8
		}{},
		struct {
			emIf
			Em9
		}{},
		struct {
			emIf
			*Em9
		}{},
		struct {
			emIf
			A int
			*Em9
		}{},
		struct {
			emIf
			*Em9 `json:"a"`
		}{},
		struct {
			emIf
			EmR
		}{},
		struct {
			emIf
			*EmR
		}{},
		struct {
			emIf
			emP
		}{},
		struct {
			emIf
			A int
			emP
		}{},
		struct {
			emIf
			emP `json:"a"`
		}{},
		struct {
			emIf
			emInt
		}{},
		struct {
			emIf
			*emInt
		}{},
		struct {
			emIf
			EmInt
		}{},
		struct {
			emIf
			A int
			EmInt
		}{},
		struct {
			emIf
			EmInt `json:"a"`
		}{},
		struct {
			emIf
			*EmInt
		}{},
		struct {
			emIf
			emMap
		}{},
		struct {
			emIf
			EmMap
		}{},
		struct {
			emIf
			A int
			EmMap
		}{},
		struct {
			emIf
			EmMap `json:"a"`
		}{},
		struct {
			emIf
			EmSl
		}{},
		struct {
			emIf
			EmIf
		}{},
		struct {
			emIf
			A int
			EmIf
		}{},
		struct {
			emIf
			EmIf `json:"a"`
		}{},
		struct {
			emIf
			emE
		}{},
		struct {
			emIf
			*emE
		}{},
		struct {
			EmIf
			em1
		}{},
		struct {
			EmIf
			*em1
		}{},
		struct {
			EmIf
			A int
			*em1
		}{},
		struct {
			EmIf
			*em1 `json:"a"`
		}{},
		struct {
			EmIf
			em2
		}{},
		struct {
			EmIf
			em3
		}{},
		struct {
			EmIf
			*em3
		}{},
		struct {
			EmIf
			A int
			*em3
		}{},
		struct {
			EmIf
			*em3 `json:"a"`
		}{},
		struct {
			EmIf
			em4
		}{},
		struct {
			EmIf
			em5
		}{},
		struct {
			EmIf
			*em5
		}{},
		struct {
			EmIf
			A int
			*em5
		}{},
		struct {
			EmIf
			*em5 `json:"a"`
		}{},
		struct {
			EmIf
			em6
		}{},
		struct {
			EmIf
			em7
		}{},
		struct {
			EmIf
			*em7
		}{},
		struct {
			EmIf
			A int
			*em7
		}{},
		struct {
			EmIf
			*em7 `json:"a"`
		}{},
		struct {
			EmIf
			Em8
		}{},
		struct {
			EmIf
			*Em8
		}{},
		struct {
			EmIf
			Em9
		}{},
		struct {
			EmIf
			A int
			Em9
		}{},
		struct {
			EmIf
			Em9 `json:"a"`
		}{},
		struct {
			EmIf
			*Em9
		}{},
		struct {
			EmIf
			EmR
		}{},
		struct {
			EmIf
			*EmR
		}{},
		struct {
			EmIf
			A int
			*EmR
		}{},
		struct {
			EmIf
			*EmR `json:"a"`
		}{},
		struct {
			EmIf
			emP
		}{},
		struct {
			EmIf
			emInt
		}{},
		struct {
			EmIf
			*emInt
		}{},
		struct {
			EmIf
			A int
			*emInt
		}{},
		struct {
			EmIf
			*emInt `json:"a"`
		}{},
		struct {
			EmIf
			EmInt
		}{},
		struct {
			EmIf
			*EmInt
		}{},
		struct {
			EmIf
			emMap
		}{},
		struct {
			EmIf
			A int
			emMap
		}{},
		struct {
			EmIf
			emMap `json:"a"`
		}{},
		struct {
			EmIf
			EmMap
		}{},
		struct {
			EmIf
			EmSl
		}{},
		struct {
			EmIf
			emIf
		}{},
		struct {
			EmIf
			A int
			emIf
		}{},
		struct {
			EmIf
			emIf `json:"a"`
		}{},
		struct {
			EmIf
			emE
		}{},
		struct {
			EmIf
			*emE
		}{},
		struct {
			EmIf
			A int
			*emE
		}{},
		struct {
			EmIf
			*emE `json:"a"`
		}{},
		struct {
			emE
			em1
		}{},
		struct {
			emE
			A int
			em1
		}{},
		struct {
			emE
			em1 `json:"a"`
		}{},
		struct {
			emE
			*em1
		}{},
		struct {
			emE
			em2
		}{},
		struct {
			emE
			em3
		}{},
		struct {
			emE
			A int
			em3
		}{},
		struct {
			emE
			em3 `json:"a"`
		}{},
		struct {
			emE
			*em3
		}{},
		struct {
			emE
			em4
		}{},
		struct {
			emE
			em5
		}{},
		struct {
			emE
			A int
			em5
		}{},
		struct {
			emE
			em5 `json:"a"`
		}{},
		struct {
			emE
			*em5
		}{},
		struct {
			emE
			em6
		}{},
		struct {
			emE
			em7
		}{},
		struct {
			emE
			A int
			em7
		}{},
		struct {
			emE
			em7 `json:"a"`
		}{},
		struct {
			emE
			*em7
		}{},
		struct {
			emE
			Em8
		}{},
		struct {
			emE
			*Em8
		}{},
		struct {
			emE
			A int
			*Em8
		}{},
		struct {
			emE
			*Em8 `json:"a"`
		}{},
		struct {
			emE
			Em9
		}{},
		struct {
			emE
			*Em9
		}{},
		struct {
			emE
			EmR
		}{},
		struct {
			emE
			A int
			EmR
		}{},
		struct {
			emE
			EmR `json:"a"`
		}{},
		struct {
			emE
			*EmR
		}{},
		struct {
			emE
			emP
		}{},
		struct {
			emE
			emInt
		}{},
		struct {
			emE
			A int
			emInt
		}{},
		struct {
			emE
			emInt `json:"a"`
		}{},
		struct {
			emE
			*emInt
		}{},
		struct {
			emE
			EmInt
		}{},
		struct {
			emE
			*EmInt
		}{},
		struct {
			emE
			A int
			*EmInt
		}{},
		struct {
			emE
			*EmInt `json:"a"`
		}{},
		struct {
			emE
			emMap
		}{},
		struct {
			emE
			EmMap
		}{},
		struct {
			emE
			EmSl
		}{},
		struct {
			emE
			A int
			EmSl
		}{},
		struct {
			emE
			EmSl `json:"a"`
		}{},
		struct {
			emE
			emIf
		}{},
		struct {
			emE
			EmIf
		}{},
		struct {
			*emE
			em1
		}{},
		struct {
			*emE
			*em1
		}{},
		struct {
			*emE
			em2
		}{},
		struct {
			*emE
			A int
			em2
		}{},
		struct {
			*emE
			em2 `json:"a"`
		}{},
		struct {
			*emE
			em3
		}{},
		struct {
			*emE
			*em3
		}{},
		struct {
			*emE
			em4
		}{},
		struct {
			*emE
			A int
			em4
		}{},
		struct {
			*emE
			em4 `json:"a"`
		}{},
		struct {
			*emE
			em5
		}{},
		struct {
			*emE
			*em5
		}{},
		struct {
			*emE
			em6
		}{},
		struct {
			*emE
			A int
			em6
		}{},
		struct {
			*emE
			em6 `json:"a"`
		}{},
		struct {
			*emE
			em7
		}{},
		struct {
			*emE
			*em7
		}{},
		struct {
			*emE
			Em8
		}{},
		struct {
			*emE
			A int
			Em8
		}{},
		struct {
			*emE
			Em8 `json:"a"`
		}{},
		struct {
			*emE
			*Em8
		}{},
		struct {
			*emE
			Em9
		}{},
		struct {
			*emE
			*Em9
		}{},
		struct {
			*emE
			A int
			*Em9
		}{},
		struct {
			*emE
			*Em9 `json:"a"`
		}{},
		struct {
			*emE
			EmR
		}{},
		struct {
			*emE
			*EmR
		}{},
		struct {
			*emE
			emP
		}{},
		struct {
			*emE
			A int
			emP
		}{},
		struct {
			*emE
			emP `json:"a"`
		}{},
		struct {
			*emE
			emInt
		}{},
		struct {
			*emE
			*emInt
		}{},
		struct {
			*emE
			EmInt
		}{},
		struct {
			*emE
			A int
			EmInt
		}{},
		struct {
			*emE
			EmInt `json:"a"`
		}{},
		struct {
			*emE
			*EmInt
		}{},
		struct {
			*emE
			emMap
		}{},
		struct {
			*emE
			EmMap
		}{},
		struct {
			*emE
			A int
			EmMap
		}{},
		struct {
			*emE
			EmMap `json:"a"`
		}{},
		struct {
			*emE
			EmSl
		}{},
		struct {
			*emE
			emIf
		}{},
		struct {
			*emE
			EmIf
		}{},
		struct {
			*emE
			A int
			EmIf
		}{},
		struct {
			*emE
			EmIf `json:"a"`
		}{},
	}
}
