package main

func translateAsm(dir string) ([]byte, error) { return nil, nil }
