// not needed
