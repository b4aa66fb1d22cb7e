"""The claimed properties: which rules decide each one."""
import catalog
CHECKS = {p['id']: p for p in catalog.P}
