package page

// ---- C14: searching takes no lock

//@ func (p *Paginate) Match(m map[string]string) (ok bool, err error)
//@ requires[C14] p != nil
//@ ensures[C14] no lock is taken: vLocksUnchanged()

//@ func Match(m map[string]string, searchParts []string) (ok bool, err error)
//@ ensures[C14] no lock is taken: vLocksUnchanged()

//@ func (p *Paginate) SearchParts() (r []string)
//@ ensures[C14] no lock is taken: vLocksUnchanged()

//@ func (p *Paginate) Window(total int64) (start, end int64, err error)
//@ ensures[C14] no lock is taken: vLocksUnchanged()
