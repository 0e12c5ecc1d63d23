// Included before the code under test.
