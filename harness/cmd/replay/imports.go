package main

// Replaced through an overlay by the harness packages a check needs.
