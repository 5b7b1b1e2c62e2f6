cd /verif/gosym && go vet ./harness && go build -o /tmp/gosym ./cmd/gosym && for i in "$@"; do /tmp/gosym check $i 2>&1 | cut -c1-1200 | head -${LINES_MAX:-60}; done
