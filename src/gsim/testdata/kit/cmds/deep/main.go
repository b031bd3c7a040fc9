package main

type Runner interface{ Run(args []string) error }

func main() {}
