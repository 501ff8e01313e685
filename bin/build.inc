# Sourced by check: builds the harness for a property from the current tree of
# $REPO into $W/bin, through an overlay, without touching $REPO.

overlay_dir() { # <source dir> <virtual dir below $REPO>
  for f in "$1"/*.go; do
    printf '"%s/%s/%s":"%s",' "$REPO" "$2" "$(basename "$f")" "$f"
  done
}

build_sched() { # <tags> [-os]: the harness over instrumented code
  local v=$VERIF/mc tags=$1; shift
  (cd "$v/instrument" && go build -o "$W/instrument" .) 2>&1 || return 1
  if "$W/instrument" -repo "$REPO" -out "$W/inst" "$@" -dir internal/verifmc="$v/harness" -dir verifvs="$v/vs" \
      -dir verifvs/vsync="$v/vs/vsync" -dir verifvs/vatomic="$v/vs/vatomic" -dir verifvs/vos="$v/vs/vos" ./pkg/... ./internal/... > "$W/inst.log" 2>&1 &&
      cd "$REPO" && go build -tags "$tags" -overlay "$W/inst/overlay.json" -o "$W/bin" ./internal/verifmc > "$W/build.log" 2>&1; then
    if go build -race -tags "$tags" -overlay "$W/inst/overlay.json" -o "$W/race" ./internal/verifmc > "$W/race.log" 2>&1; then
      RACEBIN=$W/race
    else
      tail -5 "$W/race.log"
    fi
    return 0
  fi
  # code that cannot be instrumented is run as it is
  tail -5 "$W/inst.log" "$W/build.log" 2>/dev/null
  export VERIF_PLAIN=1
  { printf '{"Replace":{'; { overlay_dir "$v/harness" internal/verifmc; for d in "" /vsync /vatomic /vos; do overlay_dir "$v/vs$d" "verifvs$d"; done; } | sed 's/,$//'; printf '}}'; } > "$W/overlay.json"
  cd "$REPO" && go build -tags "$tags" -overlay "$W/overlay.json" -o "$W/bin" ./internal/verifmc 2>&1
}

build_for() {
  case $1 in
  P02|P03|P04) build_sched verifsched; return ;;
  P06) build_sched verifsched,verifweb; return ;;
  P24) build_sched verifsched -os; return ;;
  esac
  { printf '{"Replace":{'; overlay_dir "$VERIF/mc/harness" internal/verifmc | sed 's/,$//'; printf '}}'; } > "$W/overlay.json"
  cd "$REPO" || return 1
  case $1 in
  P05|P07|P22)
    go build -tags verifweb -overlay "$W/overlay.json" -o "$W/bin" ./internal/verifmc 2>&1
    return ;;
  P23)
    # the family on the taxonomy file loader needs its usual signature
    go build -tags verifapi -overlay "$W/overlay.json" -o "$W/bin" ./internal/verifmc > "$W/build.log" 2>&1 && return 0
    echo "note: built without the families on internal functions" ;;
  esac
  go build -overlay "$W/overlay.json" -o "$W/bin" ./internal/verifmc 2>&1
}
