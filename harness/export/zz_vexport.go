package rdns
