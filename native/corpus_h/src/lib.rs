//! Placeholder: mirvc/corpus.py generates this file (one snippet per line) in its scratch copy.
