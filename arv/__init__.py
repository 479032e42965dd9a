"""Runtime-monitoring framework for cogu/autosar."""
