package vsched

import "reflect"

func (c *RecvCase[T]) real() (func() bool, func() bool) { return nil, nil }
func (c *SendCase[T]) real() (func() bool, func() bool) { return nil, nil }

func (c *RecvCase[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *SendCase[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

type reflectCaser interface{ reflectCase() reflect.SelectCase }

func realSelect(hasDefault bool, cases []Case) int {
	rc := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, c := range cases {
		rc = append(rc, c.(reflectCaser).reflectCase())
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return -1
	}
	if !cases[i].isSend() {
		if ok {
			cases[i].set(v.Interface(), ok)
		} else {
			cases[i].set(nil, false)
		}
	}
	return i
}
