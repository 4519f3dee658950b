//go:build vcmd

package rdns

// VHWatchNetNS watches the namespaces in a directory.
func VHWatchNetNS(dir string) (func(name string) (<-chan NetNSState, func()), error) {
	netnsDir = dir
	w, err := newNetNSWatcher()
	if err != nil {
		return nil, err
	}
	return w.subscribe, nil
}
