#!/bin/bash
# run the chain harness for every chain property (development helper)
for p in ${@:-C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C24 C25 C26}; do /verif/target/debug/chain $p 2>&1 | cut -c1-1500 | grep -v "^part.*OK"; done
