package vsched
