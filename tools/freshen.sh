# Cargo decides freshness by mtime; a tree laid out with old times must still be
# seen.  When the content of /repo's sources differs from what was last built,
# make the fingerprints of the crates built from it old, which forces a rebuild.
freshen() {
  local root="$1" sum old
  sum=$(cd /repo && find Cargo.toml src crates/rewrite/Cargo.toml crates/rewrite/src -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
  mkdir -p "$root/target"
  old=$(cat "$root/target/.repo-sum" 2>/dev/null || true)
  if [ "$sum" != "$old" ]; then
    find "$root/target" \( -path '*/.fingerprint/object-*' -o -path '*/.fingerprint/object_rewrite-*' -o -path '*/.fingerprint/object-rewrite-*' -o -path '*/build/object/*/fingerprint/*' -o -path '*/build/object-rewrite/*/fingerprint/*' -o -path '*/build/object_rewrite/*/fingerprint/*' \) -type f -exec touch -d 1990-01-01 {} + 2>/dev/null
    echo "$sum" > "$root/target/.repo-sum"
  fi
}
