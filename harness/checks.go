package main

var checks []*Check

func register(c *Check) { checks = append(checks, c) }

func findCheck(id string) *Check {
	for _, c := range checks {
		if c.ID == id {
			return c
		}
	}
	return nil
}
