"""Per-property settings of the checks: runs (quick, thorough), real/stub components, probes."""
CONFIG = {
    "C24": dict(log_file_fails=True),
}
# One sentence per property for MANIFEST.json's level_note.
NOTES = {}
