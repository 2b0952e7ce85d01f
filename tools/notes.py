# Extra level notes (NOTE) and reasons for not-applicable properties (NA).
