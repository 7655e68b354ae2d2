[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
# fall back to a private build cache when the usual one cannot be written
if ! { mkdir -p "${GOCACHE:-/root/.cache/go-build}" && [ -w "${GOCACHE:-/root/.cache/go-build}" ]; } 2>/dev/null; then
	GOCACHE="$(mktemp -d)"
	export GOCACHE
	trap 'chmod -R u+w "$GOCACHE"; rm -rf "${GOCACHE:?}"' EXIT
fi
