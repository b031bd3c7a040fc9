package syntax

type Fine interface{ F() }

func broken( {
