package main

import (
	"bytes"
	"encoding/json"
	"errors"

	"bondsim/prog"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/serializers"
	"github.com/go-bond/bond/utils"
	"github.com/tinylib/msgp/msgp"
	"github.com/vmihailenco/msgpack/v5"
)

// Record types for the serializers that need methods. A record whose X is
// prog.Unstorable cannot be serialized.

var errUnstorable = errors.New("this record cannot be serialized")

func encode(r *prog.Row) ([]byte, error) {
	if r.X == prog.Unstorable {
		return nil, errUnstorable
	}
	return json.Marshal(r)
}

// genRow is a record of a table with generated msgp methods.
type genRow prog.Row

func (r *genRow) EncodeMsg(w *msgp.Writer) error {
	b, err := encode((*prog.Row)(r))
	if err != nil {
		return err
	}
	return w.WriteBytes(b)
}

func (r *genRow) DecodeMsg(d *msgp.Reader) error {
	b, err := d.ReadBytes(nil)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, r)
}

// vtRow has the methods of a vtproto message, pbRow those of a plain one.
type vtRow prog.Row

func (r *vtRow) MarshalVT() ([]byte, error) { return encode((*prog.Row)(r)) }
func (r *vtRow) UnmarshalVT(b []byte) error { return json.Unmarshal(b, r) }

type pbRow prog.Row

func (r *pbRow) Reset()         { *r = pbRow{} }
func (r *pbRow) String() string { return "row" }
func (r *pbRow) ProtoMessage()  {}

type pbCodec struct{}

func (pbCodec) Marshal(m serializers.ProtobufMessageV1) ([]byte, error) {
	return encode((*prog.Row)(m.(*pbRow)))
}

func (pbCodec) Unmarshal(b []byte, m serializers.ProtobufMessageV1) error {
	return json.Unmarshal(b, m.(*pbRow))
}

// unstorable says whether tables with the serializer refuse such records.
func unstorable(ser string) bool { return ser == "msgp" || ser == "vt" || ser == "pb" }

func serializer(s string) bond.Serializer[any] {
	switch s {
	case "json":
		return &serializers.JsonSerializer{}
	case "cbor":
		return &serializers.CBORSerializer{}
	case "msgpack":
		return &serializers.MsgpackSerializer{}
	case "msgpackpool":
		return &serializers.MsgpackSerializer{
			Encoder: utils.NewPreAllocatedPool[*msgpack.Encoder](func() any { return msgpack.NewEncoder(nil) }, 2),
			Decoder: utils.NewPreAllocatedPool[*msgpack.Decoder](func() any { return msgpack.NewDecoder(nil) }, 2),
			Buffer:  utils.NewPreAllocatedPool[bytes.Buffer](func() any { return bytes.Buffer{} }, 2),
		}
	case "msgp":
		return &serializers.MsgpackGenSerializer{Buffer: utils.NewPreAllocatedPool[bytes.Buffer](func() any { return bytes.Buffer{} }, 2)}
	case "vt":
		return &serializers.ProtobufSerializer{}
	case "lean":
		return lean{}
	case "pb":
		return &serializers.ProtobufSerializer{Encoder: pbCodec{}, Decoder: pbCodec{}}
	}
	return nil
}

// lean stores one record as no bytes at all, as protobuf does with messages
// whose fields all have their default value.
type lean struct{}

func (lean) Serialize(i any) ([]byte, error) {
	r, ok := i.(*prog.Row)
	if !ok {
		r = *i.(**prog.Row)
	}
	if r.IsBlank() {
		return nil, nil
	}
	return json.Marshal(r)
}

func (lean) Deserialize(b []byte, i any) error {
	r := prog.Blank()
	if len(b) > 0 {
		r = prog.Row{}
		if err := json.Unmarshal(b, &r); err != nil {
			return err
		}
	}
	if p, ok := i.(*prog.Row); ok {
		*p = r
	} else {
		*i.(**prog.Row) = &r
	}
	return nil
}

// rowTypes is every type a record can have.
type rowTypes interface {
	prog.Row | genRow | vtRow | pbRow
}

func cp(r prog.Row) prog.Row {
	r.P = append([]byte(nil), r.P...)
	return r
}

func valTab[T rowTypes](db bond.DB, spec prog.Table, filter bond.Filter) (tableOps, error) {
	return mkTab(db, spec, filter,
		func(r prog.Row) T { return T(cp(r)) },
		func(t T) prog.Row { return prog.Row(t) },
		func(t T) bool { return prog.Row(t).V == 0 })
}

func ptrTab[T rowTypes](db bond.DB, spec prog.Table, filter bond.Filter) (tableOps, error) {
	return mkTab(db, spec, filter,
		func(r prog.Row) *T { t := T(cp(r)); return &t },
		func(t *T) prog.Row { return prog.Row(*t) },
		func(t *T) bool { return t == nil })
}

func newTab(db bond.DB, spec prog.Table, filter bond.Filter) (tableOps, error) {
	switch {
	case spec.KV:
		return &kvTab{spec: spec, db: db}, nil
	case spec.Ser == "msgp" && spec.Ptr:
		return ptrTab[genRow](db, spec, filter)
	case spec.Ser == "msgp":
		return valTab[genRow](db, spec, filter)
	case spec.Ser == "vt": // decoded through a pointer to the record
		return valTab[vtRow](db, spec, filter)
	case spec.Ser == "pb":
		return valTab[pbRow](db, spec, filter)
	case spec.Ptr:
		return ptrTab[prog.Row](db, spec, filter)
	}
	return valTab[prog.Row](db, spec, filter)
}

// setRow changes a record in place if it is a pointer.
func setRow(t any, r prog.Row) bool {
	switch p := t.(type) {
	case *prog.Row:
		*p = r
	case *genRow:
		*p = genRow(r)
	default:
		return false
	}
	return true
}
