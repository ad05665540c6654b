package page

// ---- C05: matching changes nothing (frame only).

//@ func (p *Paginate) Match(m map[string]string) (ok bool, err error)
//@ requires[C05] p != nil
//@ ensures[C05] matching changes nothing: true

//@ func (p *Paginate) SearchParts() (r []string)
//@ ensures[C05] splitting changes nothing: true
