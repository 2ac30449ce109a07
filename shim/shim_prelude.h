// shim mode prelude: nothing to redirect
