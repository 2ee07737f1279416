"""Small explicit-state / stateless model checking kit for crys-gsu (see DESIGN.md)."""
