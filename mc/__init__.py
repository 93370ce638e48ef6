"""Bounded exhaustive exploration (explicit-state / stateless model checking) of mcpyrate."""
