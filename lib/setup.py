"""Build the extractor (the checks build it themselves when it is missing)."""
import build
build.tool()
print('extractor ready')
