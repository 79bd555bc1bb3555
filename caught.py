"""Which check catches which planted bug (for DESIGN.md)."""
MISSED = "its check, after it was extended (missed at first)"
OK = "its check"
CAUGHT = {d: OK for d in """c01-type-byte c02-body-in-parts c03-header-in-parts c04-buffer-before-limit c05-header-kept c06-limits-swapped
    c09-update-to-other-direction c10-clone-not-closed c11-queued-updates-lost c16-stops-with-last-writer c17-lossy-error c21-default-config
    c22-removes-files c07-fds-truncated c07-fd-leak c18-negative-service c29-short-segment c29-unsigned-service
    c28-finished-ids c24-reset-is-aborted c12-first-only c05-zero-unlimited c25-stream-unreachable c14-yield c27-default-config
    c18-invalid-request-answered c19-id-wraps c19-adjacent-duplicates""".split()}
CAUGHT.update({d: MISSED for d in """c08-reused-id c12-no-answer c13-open-request-not-aborted c13-pending-sends-dropped
    c15-refused-request-stays c23-ok-before-written c25-stop-on-unknown-request
    c13-client-close c18-update-best-effort c16-error-after-drop c16-server-forget c28-server-keeps-tasks c09-dup-replaces c10-response-twice c20-tabs c26-backpressure c03-growing-buffer c11-update-queue-full""".split()})
