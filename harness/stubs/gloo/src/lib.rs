//! Not used on this target.
