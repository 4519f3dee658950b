//go:build vcmd

package vroutedns

import rdns "github.com/folbricht/routedns"

// VHSupervise runs the supervisor of a listener bound to a namespace.
func VHSupervise(id, ns string, events <-chan rdns.NetNSState, build func() (rdns.Listener, error)) {
	runNetNSSupervisor(id, ns, events, build)
}
