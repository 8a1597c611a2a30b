"""Static-analysis machinery for IBM/aihwkit."""
