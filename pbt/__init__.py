"""Property-based checks of sedonaprice/misfit."""
