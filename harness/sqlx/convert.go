package sqlx

import (
	"errors"

	ddd "github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/executor/mysql"

	"verifharness/vf"
)

// converter converts and notes what it is given.
type converter struct {
	entity, parent ddd.IEntity
	op             ddd.OpType
	back           mysql.IModel
	calls          int
	err            error
}

func (c *converter) Entity2Model(e, parent ddd.IEntity, op ddd.OpType) (mysql.IModel, error) {
	c.entity, c.parent, c.op = e, parent, op
	c.calls++
	if c.err != nil {
		return nil, c.err
	}
	return base(e.GetID()), nil
}

func (c *converter) Model2Entity(m mysql.IModel, e ddd.IEntity) error {
	c.back, c.entity = m, e
	c.calls++
	if c.err != nil {
		return c.err
	}
	e.SetID(m.GetID())
	return nil
}

type foreign struct{}

func (*foreign) GetID() string { return "f" }

func init() {
	// each entity type goes through its own converter, however that was registered, and its refusal is reported
	vf.Register("C15.converters", func() {
		type apple struct{ ddd.BaseEntity }
		type pear struct{ ddd.BaseEntity }
		d := newDB()
		cs := []*converter{{}, {}}
		for i, e := range []ddd.IEntity{&apple{}, &pear{}} {
			if vf.Bool("by_functions") {
				mysql.RegisterEntity2Model(e, cs[i].Entity2Model, cs[i].Model2Entity)
			} else {
				mysql.RegisterConverter(e, cs[i])
			}
		}
		i := vf.Choice("type", 2)
		e := []ddd.IEntity{&apple{}, &pear{}}[i]
		e.SetID("a")
		c := cs[i]
		if vf.Bool("refuses") {
			c.err = errors.New("refused")
		}
		var parent ddd.IEntity
		if vf.Bool("child") {
			parent = &pear{}
		}
		op := ddd.OpType(vf.Int("op", 1, 4))
		m, err := d.ex.Entity2Model(e, parent, op)
		vf.Assert(c.calls == 1 && cs[1-i].calls == 0, "not the converter of the entity's type is used")
		vf.Assert(c.entity == e && c.parent == parent, "the converter is given another entity or parent")
		vf.Assert(c.op == op, "the converter is given another operation")
		vf.Assert(errors.Is(err, c.err), "the converter's refusal is not reported")
		if c.err == nil {
			vf.Assert(m != nil && m.GetID() == "a", "not the converter's model is returned")
		}
		in := base("b")
		c.entity = nil
		err = d.ex.Model2Entity(in, e)
		vf.Assert(c.calls == 2 && cs[1-i].calls == 0, "not the converter of the entity's type is used")
		vf.Assert(c.back == mysql.IModel(in) && c.entity == e, "the converter is given another model or entity")
		vf.Assert(errors.Is(err, c.err), "the converter's refusal is not reported")
		if c.err == nil {
			vf.Assert(e.GetID() == "b", "the entity is not filled")
		}
		vf.Assert(d.ex.Model2Entity(&foreign{}, e) != nil && c.calls == 2, "a model of another kind of storage is accepted")
		vf.Reach("converted")
	})
}
