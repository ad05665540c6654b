package kube

import (
	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

//@ func ParseToLabelSelector(selector string) (ls *v1.LabelSelector, err error)
//@ ensures[C14] no lock is taken: vLocksUnchanged()
