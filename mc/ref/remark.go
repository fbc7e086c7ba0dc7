package semnet

import abstractRemark "github.com/mem-memov/semnet/verifmc/ref/internal/abstract/remark"

type Remark struct {
	abstractRemark.Aggregate
}
